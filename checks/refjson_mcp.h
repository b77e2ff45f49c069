/* comparison of a library JSON value with a reference tree, through the public accessors */
#ifndef REFJSON_MCP_H
#define REFJSON_MCP_H
#include "refjson.h"
#include "mcp_json.h"
/* 0: equal, otherwise a description */
static const char *rj_diff(rj *r, const mcp_json_t *j) {
    if (!j) return "value missing";
    mcp_json_type_t t = mcp_json_get_type(j);
    switch (r->t) {
    case 'n': return t == MCP_JSON_NULL ? 0 : "not null";
    case 't': case 'f': {
        bool b;
        if (t != MCP_JSON_BOOLEAN || mcp_json_get_boolean(j, &b)) return "not a boolean";
        return b == (r->t == 't') ? 0 : "wrong boolean";
    }
    case '#': {
        double d;
        if (t != MCP_JSON_NUMBER || mcp_json_get_number(j, &d)) return "not a number";
        return d == r->n || (d != d && r->n != r->n) ? 0 : "wrong number";
    }
    case 's': {
        const char *s;
        if (t != MCP_JSON_STRING || mcp_json_get_string(j, &s) || !s) return "not a string";
        return strlen(s) == r->sl && !memcmp(s, r->s, r->sl) ? 0 : "wrong string";
    }
    case 'a':
        if (t != MCP_JSON_ARRAY) return "not an array";
        if (mcp_json_array_get_size(j) != r->cnt) return "wrong array length";
        for (int i = 0; i < r->cnt; i++) { const char *d = rj_diff(r->it[i], mcp_json_array_get_item(j, i)); if (d) return d; }
        if (mcp_json_array_get_item(j, r->cnt)) return "item past the end";
        return 0;
    case 'o': {
        if (t != MCP_JSON_OBJECT) return "not an object";
        char **names = NULL; size_t n = 0;
        if (mcp_json_object_get_property_names(j, &names, &n)) return "names failed";
        int seen = 0;
        for (size_t i = 0; i < n; i++) { if (rj_get(r, names[i])) seen++; free(names[i]); }
        free(names);
        if ((int)n != r->cnt || seen != r->cnt) return "wrong set of names";
        for (int i = 0; i < r->cnt; i++) { const char *d = rj_diff(r->it[i], mcp_json_object_get_property(j, r->key[i])); if (d) return d; }
        return 0;
    }
    }
    return "?";
}
#endif
