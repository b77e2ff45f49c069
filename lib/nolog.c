/* the library's log output is not part of any property checked here */
#include <stdarg.h>
void __wrap_mcp_log_log(int level, const char *file, int line, const char *format, ...);
void __wrap_mcp_log_log(int level, const char *file, int line, const char *format, ...) {
    (void)level; (void)file; (void)line; (void)format;
}
