/* Conformance driver: executes a script of API calls against the code in /repo/src
 * and reports, one JSON object per command, what the implementation did.
 *
 * usage: driver SCRIPT OUT        ("-" = stdin/stdout)
 *
 * Script: one command per line, blank-separated words; byte strings are written as
 * x<hex>. Every scenario starts with "N" and runs in a forked child, so that an abort,
 * a sanitizer report or an endless loop becomes an observation ("crash") of that
 * scenario and nothing else.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <float.h>
#include <inttypes.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include "betree.h"
#ifndef NO_HELPER
#include "helper.h"
#endif
#ifndef NO_AST
#include "ast.h"
#include "ast_compare.h"
#include "clone.h"
#include "printer.h"
#include "tree.h"
#endif
#ifndef NO_WALK
#include "config.h"
#include "memoize.h"
#include "hashmap.h"
#include "tree.h"
#endif

#if defined(__SANITIZE_ADDRESS__)
size_t __sanitizer_get_current_allocated_bytes(void);
static long heap_now(void) { return (long)__sanitizer_get_current_allocated_bytes(); }
#else
static long heap_now(void) { return -1; }
#endif

#define MAXT 128
#define MAXS 512

/* output: an mmapped area owned by the driver, so that it is not part of the heap ledger */
static char* obuf;
static size_t olen;
#define OCAP (64u << 20)
static int ofd;

static void out(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(obuf + olen, OCAP - olen, fmt, ap);
    va_end(ap);
    if(n < 0 || olen + (size_t)n >= OCAP) {
        fprintf(stderr, "driver: output overflow\n");
        _exit(99);
    }
    olen += (size_t)n;
}
static void flush_out(void)
{
    size_t off = 0;
    while(off < olen) {
        ssize_t w = write(ofd, obuf + off, olen - off);
        if(w < 0) {
            if(errno == EINTR) continue;
            _exit(98);
        }
        off += (size_t)w;
    }
    olen = 0;
}

static struct betree* trees[MAXT];
static bool owned[MAXT];
static const struct betree_sub* slots[MAXS];
static struct report* reports[MAXT];
static char* cur; /* rest of the current line */

static char* word(void)
{
    while(*cur == ' ') cur++;
    if(*cur == 0 || *cur == '\n') {
        fprintf(stderr, "driver: missing word\n");
        _exit(97);
    }
    char* w = cur;
    while(*cur && *cur != ' ' && *cur != '\n') cur++;
    if(*cur) *cur++ = 0;
    return w;
}
static int64_t num(void) { return strtoll(word(), NULL, 10); }
static uint64_t unum(void) { return strtoull(word(), NULL, 10); }
static double dbl(void)
{
    char* w = word();
    if(strcmp(w, "-inf") == 0) return -DBL_MAX;
    if(strcmp(w, "inf") == 0) return DBL_MAX;
    return strtod(w, NULL);
}
static int hexd(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
/* decodes in place: the bytes are always shorter than their hex form */
static char* str(void)
{
    char* w = word();
    if(*w != 'x') {
        fprintf(stderr, "driver: expected x<hex>: %s\n", w);
        _exit(96);
    }
    char* p = w;
    char* q = w + 1;
    while(q[0] && q[1]) {
        *p++ = (char)(hexd(q[0]) * 16 + hexd(q[1]));
        q += 2;
    }
    *p = 0;
    return w;
}

static void out_report(const struct report* r)
{
    out("\"ev\":%zu,\"ma\":%zu,\"me\":%zu,\"sh\":%zu,\"ids\":[", r->evaluated, r->matched, r->memoized, r->shorted);
    for(size_t i = 0; i < r->matched; i++) out("%s\"%" PRIu64 "\"", i ? "," : "", r->subs[i]);
    out("]");
}

static struct betree_constant* consts[64];
static size_t read_consts(void)
{
    size_t n = (size_t)num();
    for(size_t i = 0; i < n; i++) {
        char* name = str();
        int64_t v = num();
        consts[i] = betree_make_integer_constant(name, v);
    }
    return n;
}

/* loose: the value is given back by the call for its type, not made part of an event */
static struct betree_variable* read_value(bool loose)
{
    char* name = str();
    char* t = word();
    if(strcmp(t, "b") == 0) return betree_make_boolean_variable(name, num() != 0);
    if(strcmp(t, "i") == 0) return betree_make_integer_variable(name, num());
    if(strcmp(t, "f") == 0) return betree_make_float_variable(name, dbl());
    if(strcmp(t, "s") == 0) return betree_make_string_variable(name, str());
    if(strcmp(t, "il") == 0) {
        size_t n = (size_t)num();
        struct betree_integer_list* l = betree_make_integer_list(n);
        for(size_t i = 0; i < n; i++) betree_add_integer(l, i, num());
        if(loose) {
            betree_free_integer_list(l);
            return NULL;
        }
        return betree_make_integer_list_variable(name, l);
    }
    if(strcmp(t, "sl") == 0) {
        size_t n = (size_t)num();
        struct betree_string_list* l = betree_make_string_list(n);
        for(size_t i = 0; i < n; i++) betree_add_string(l, i, str());
        if(loose) {
            betree_free_string_list(l);
            return NULL;
        }
        return betree_make_string_list_variable(name, l);
    }
    if(strcmp(t, "seg") == 0) {
        size_t n = (size_t)num();
        struct betree_segments* l = betree_make_segments(n);
        for(size_t i = 0; i < n; i++) {
            int64_t id = num();
            int64_t ts = num();
            struct betree_segment* x = betree_make_segment(id, ts);
            if(loose && i == 0) {
                betree_free_segment(x);
                x = betree_make_segment(id, ts);
            }
            betree_add_segment(l, i, x);
        }
        if(loose) {
            betree_free_segments(l);
            return NULL;
        }
        return betree_make_segments_variable(name, l);
    }
    if(strcmp(t, "fc") == 0) {
        size_t n = (size_t)num();
        struct betree_frequency_caps* l = betree_make_frequency_caps(n);
        for(size_t i = 0; i < n; i++) {
            char* ty = str();
            uint32_t id = (uint32_t)num();
            char* ns = str();
            bool def = num() != 0;
            int64_t ts = num();
            uint32_t v = (uint32_t)num();
            struct betree_frequency_cap* x = betree_make_frequency_cap(ty, id, ns, def, ts, v);
            if(loose && i == 0) {
                betree_free_frequency_cap(x);
                x = betree_make_frequency_cap(ty, id, ns, def, ts, v);
            }
            betree_add_frequency_cap(l, i, x);
        }
        if(loose) {
            betree_free_frequency_caps(l);
            return NULL;
        }
        return betree_make_frequency_caps_variable(name, l);
    }
    fprintf(stderr, "driver: unknown value type %s\n", t);
    _exit(95);
}
static struct betree_variable* read_variable(void)
{
    return read_value(false);
}

static const char* type_name(enum betree_value_type_e t)
{
    switch(t) {
        case BETREE_BOOLEAN: return "b";
        case BETREE_INTEGER: return "i";
        case BETREE_FLOAT: return "f";
        case BETREE_STRING: return "s";
        case BETREE_INTEGER_LIST: return "il";
        case BETREE_STRING_LIST: return "sl";
        case BETREE_SEGMENTS: return "seg";
        case BETREE_FREQUENCY_CAPS: return "fc";
        case BETREE_INTEGER_ENUM: return "ie";
        default: return "?";
    }
}

#ifndef NO_WALK
static void walk_cnode(const struct cnode* c);
static void walk_bound(const struct value_bound* b)
{
    switch(b->value_type) {
        case BETREE_BOOLEAN: out("\"%d\",\"%d\"", b->bmin, b->bmax); break;
        case BETREE_INTEGER:
        case BETREE_INTEGER_LIST: out("\"%" PRId64 "\",\"%" PRId64 "\"", b->imin, b->imax); break;
        case BETREE_FLOAT: out("\"%.6f\",\"%.6f\"", b->fmin, b->fmax); break;
        case BETREE_STRING:
        case BETREE_STRING_LIST:
        case BETREE_INTEGER_ENUM: out("\"%zu\",\"%zu\"", b->smin, b->smax); break;
        case BETREE_SEGMENTS:
        case BETREE_FREQUENCY_CAPS:
        default: out("\"0\",\"0\""); break;
    }
}
static void walk_cdir(const struct cdir* d)
{
    out("{\"v\":%" PRIu64 ",\"b\":[", d->attr_var.var);
    walk_bound(&d->bound);
    out("],\"n\":");
    walk_cnode(d->cnode);
    out(",\"l\":[");
    if(d->lchild) walk_cdir(d->lchild);
    out("],\"r\":[");
    if(d->rchild) walk_cdir(d->rchild);
    out("]}");
}
static void walk_cnode(const struct cnode* c)
{
    out("{\"m\":%zu,\"s\":[", c->lnode->max);
    for(size_t i = 0; i < c->lnode->sub_count; i++)
        out("%s\"%" PRIu64 "\"", i ? "," : "", c->lnode->subs[i]->id);
    out("],\"p\":[");
    if(c->pdir) {
        for(size_t i = 0; i < c->pdir->pnode_count; i++) {
            if(i) out(",");
            out("{\"v\":%" PRIu64 ",\"d\":", c->pdir->pnodes[i]->attr_var.var);
            walk_cdir(c->pdir->pnodes[i]->cdir);
            out("}");
        }
    }
    out("]}");
}
static void walk_ids(struct config* c)
{
    out(",\"sid\":[");
    for(size_t i = 0; i < c->string_map_count; i++) {
        out("%s{\"v\":%" PRIu64 ",\"s\":true,\"m\":[", i ? "," : "", c->string_maps[i].attr_var.var);
        bool first = true;
        if(c->string_maps[i].string_value_count > 0) {
            map_iter_t it = map_iter(&c->string_maps[i].m);
            const char* key;
            while((key = map_next(&c->string_maps[i].m, &it)) != NULL) {
                out("%s[\"", first ? "" : ",");
                first = false;
                for(const char* p = key; *p; p++) out("%02x", (unsigned char)*p);
                out("\",\"%" PRIu64 "\"]", *map_get(&c->string_maps[i].m, key));
            }
        }
        out("]}");
    }
    for(size_t i = 0; i < c->integer_map_count; i++) {
        out("%s{\"v\":%" PRIu64 ",\"s\":false,\"m\":[", i || c->string_map_count ? "," : "", c->integer_maps[i].attr_var.var);
        for(size_t j = 0; j < c->integer_maps[i].integer_value_count; j++)
            out("%s[\"%" PRId64 "\",\"%zu\"]", j ? "," : "", c->integer_maps[i].integer_values[j], j);
        out("]}");
    }
    out("]");
}
#endif

static struct betree_event* held[MAXS];

static struct betree_event* read_event(int t)
{
    size_t n = (size_t)num();
    struct betree_event* e = betree_make_event(trees[t]);
    for(size_t i = 0; i < n; i++) {
        size_t ix = (size_t)num();
        betree_set_variable(e, ix, read_variable());
    }
    return e;
}

/* a word of queries, each on the same event */
static void ask(int t, const char* ops, struct betree_event* e)
{
    out("\"rs\":[");
    for(const char* o = ops; *o; o++) {
        if(o != ops) out(",");
        if(*o == 's') {
            struct report* r = make_report();
            bool ret = betree_search_with_event(trees[t], e, r);
            out("{\"o\":\"s\",\"ret\":%s,", ret ? "true" : "false");
            out_report(r);
            out("}");
            free_report(r);
        }
        else {
            bool ret = betree_exists_with_event(trees[t], e);
            out("{\"o\":\"x\",\"ret\":%s}", ret ? "true" : "false");
        }
    }
    out("]");
}

static void run_command(char* line, long k, long heap0)
{
    cur = line;
    char* c = word();
    size_t start = olen;
    out("{\"k\":%ld,", k);
    switch(c[0]) {
        case 'T': {
            int t = (int)num();
            char* w = word();
            owned[t] = strcmp(w, "i") == 0;
            if(strcmp(w, "d") == 0) trees[t] = betree_make();
            else if(owned[t]) {
                /* in memory of the caller's */
                trees[t] = malloc(sizeof(struct betree));
                memset(trees[t], 0xa5, sizeof(struct betree));
                betree_init(trees[t]);
            }
            else {
                uint64_t cap = strtoull(w, NULL, 10);
                trees[t] = betree_make_with_parameters(cap, unum());
            }
            out("\"ret\":%s", trees[t] ? "true" : "false");
            break;
        }
        case 'V': {
            struct betree* b = trees[num()];
            char* ty = word();
            char* name = str();
            bool und = num() != 0;
            if(strcmp(ty, "b") == 0) betree_add_boolean_variable(b, name, und);
            else if(strcmp(ty, "i") == 0) { int64_t lo = num(), hi = num(); betree_add_integer_variable(b, name, und, lo, hi); }
            else if(strcmp(ty, "f") == 0) { double lo = dbl(), hi = dbl(); betree_add_float_variable(b, name, und, lo, hi); }
            else if(strcmp(ty, "s") == 0) betree_add_string_variable(b, name, und, (size_t)unum());
            else if(strcmp(ty, "il") == 0) { int64_t lo = num(), hi = num(); betree_add_integer_list_variable(b, name, und, lo, hi); }
            else if(strcmp(ty, "sl") == 0) betree_add_string_list_variable(b, name, und, (size_t)unum());
            else if(strcmp(ty, "ie") == 0) betree_add_integer_enum_variable(b, name, und, (size_t)unum());
            else if(strcmp(ty, "seg") == 0) betree_add_segments_variable(b, name, und);
            else if(strcmp(ty, "fc") == 0) betree_add_frequency_caps_variable(b, name, und);
            else _exit(94);
            out("\"ret\":true");
            break;
        }
        case 'I': /* insert */
        case 'M': { /* make_sub */
            int t = (int)num();
            int slot = c[0] == 'M' ? (int)num() : 0;
            uint64_t id = unum();
            size_t n = read_consts();
            char* e = str();
            bool ret;
            if(c[0] == 'I') {
                if(n == 0) ret = betree_insert(trees[t], id, e);
                else ret = betree_insert_with_constants(trees[t], id, n, (const struct betree_constant**)consts, e);
            }
            else {
                slots[slot] = betree_make_sub(trees[t], id, n, (const struct betree_constant**)consts, e);
                ret = slots[slot] != NULL;
            }
            betree_free_constants(n, consts);
            out("\"ret\":%s", ret ? "true" : "false");
            break;
        }
        case 'J': {
            int t = (int)num();
            int slot = (int)num();
            bool ret = slots[slot] != NULL ? betree_insert_sub(trees[t], slots[slot]) : false;
            slots[slot] = NULL;     /* the index owns it now */
            out("\"ret\":%s", ret ? "true" : "false");
            break;
        }
        case 'B': {
            int t = (int)num();
            out("\"ret\":%s", betree_change_boundaries(trees[t], str()) ? "true" : "false");
            break;
        }
        case 'S': { /* search: fresh report, or "r": the report of this tree used again */
            int t = (int)num();
            char* mode = word();
            char* e = str();
            struct report* r = reports[t];
            bool reuse = strcmp(mode, "r") == 0;
            if(!reuse || r == NULL) {
                if(r) free_report(r);
                r = reports[t] = make_report();
            }
            bool ret = betree_search(trees[t], e, r);
            out("\"ret\":%s,", ret ? "true" : "false");
            out_report(r);
            break;
        }
        case 'X': {
            int t = (int)num();
            out("\"ret\":%s", betree_exists(trees[t], str()) ? "true" : "false");
            break;
        }
        case 'E': { /* constructed event: word of queries s|x applied in turn to the same event */
            int t = (int)num();
            char* ops = word();
            struct betree_event* e = read_event(t);
            ask(t, ops, e);
            betree_free_event(e);
            break;
        }
        case 'H': { /* an event kept for later */
            int t = (int)num();
            int slot = (int)num();
            if(held[slot] != NULL) betree_free_event(held[slot]);
            held[slot] = read_event(t);
            out("\"ret\":true");
            break;
        }
        case 'O': { /* queries on a kept event */
            int t = (int)num();
            int slot = (int)num();
            char* ops = word();
            ask(t, held[slot] == NULL ? "" : ops, held[slot]);
            break;
        }
        case 'Y': { /* a kept event given back */
            int slot = (int)num();
            if(held[slot] != NULL) betree_free_event(held[slot]);
            held[slot] = NULL;
            out("\"ret\":true");
            break;
        }
        case 'U': { /* values that never become part of an event: w = as a variable, l = alone */
            char* ops = word();
            size_t n = (size_t)num();
            for(size_t i = 0; i < n; i++) {
                (void)num();
                struct betree_variable* v = read_value(ops[0] == 'l');
                if(v != NULL) betree_free_variable(v);
            }
            out("\"ret\":true");
            break;
        }
        case 'G': { /* look an expression up by its id */
            int t = (int)num();
            uint64_t id = unum();
#if !defined(NO_WALK) && !defined(NO_FIND)
            struct betree_sub* sub = find_sub_id(id, trees[t]->cnode);
            out("\"has\":true,\"ret\":%s", sub != NULL && sub->id == id ? "true" : "false");
#else
            (void)t;
            (void)id;
            out("\"has\":false,\"ret\":false");
#endif
            break;
        }
        case 'D': { /* definitions of the first n attributes */
            int t = (int)num();
            size_t n = (size_t)num();
            out("\"defs\":[");
            for(size_t i = 0; i < n; i++) {
                struct betree_variable_definition d = betree_get_variable_definition(trees[t], i);
                out("%s[\"", i ? "," : "");
                for(const char* p = d.name; *p; p++) out("%02x", (unsigned char)*p);
                out("\",\"%s\"]", type_name(d.type));
            }
            out("]");
            break;
        }
        case 'W': {
            int t = (int)num();
#ifndef NO_WALK
            out("\"has\":true,\"preds\":%zu,\"memos\":%zu,\"root\":", (size_t)trees[t]->config->pred_map->pred_count,
                (size_t)trees[t]->config->pred_map->memoize_count);
            walk_cnode(trees[t]->cnode);
            walk_ids(trees[t]->config);
#else
            (void)t;
            out("\"has\":false");
#endif
            break;
        }
        case 'A': { /* declare an attribute from a line of text */
            int t = (int)num();
            char* line = str();
#ifndef NO_HELPER
            add_variable_from_string(trees[t], line);
#else
            (void)t;
            (void)line;
            _exit(89);
#endif
            out("\"ret\":true");
            break;
        }
        case 'Z': {
            int t = (int)num();
#ifndef NO_HELPER
            empty_tree(trees[t]);
#else
            (void)t;
            _exit(89);
#endif
            out("\"ret\":true");
            break;
        }
        case 'K': { /* declared domains */
            int t = (int)num();
#ifndef NO_WALK
            struct config* cf = trees[t]->config;
            out("\"has\":true,\"doms\":[");
            for(size_t i = 0; i < cf->attr_domain_count; i++) {
                const struct attr_domain* d = cf->attr_domains[i];
                out("%s[\"", i ? "," : "");
                for(const char* p = d->attr_var.attr; *p; p++) out("%02x", (unsigned char)*p);
                out("\",\"%s\",%s", type_name(d->bound.value_type), d->allow_undefined ? "true" : "false");
                switch(d->bound.value_type) {
                    case BETREE_INTEGER:
                    case BETREE_INTEGER_LIST: out(",\"%" PRId64 "\",\"%" PRId64 "\"]", d->bound.imin, d->bound.imax); break;
                    case BETREE_FLOAT:
                        if(d->bound.fmin == -DBL_MAX) out(",\"-inf\"");
                        else out(",\"%.6f\"", d->bound.fmin);
                        if(d->bound.fmax == DBL_MAX) out(",\"inf\"]");
                        else out(",\"%.6f\"]", d->bound.fmax);
                        break;
                    case BETREE_STRING:
                    case BETREE_STRING_LIST:
                    case BETREE_INTEGER_ENUM:
                        if(d->capacity == SIZE_MAX) out(",\"0\",\"inf\"]");
                        else out(",\"0\",\"%zu\"]", d->capacity);
                        break;
                    default: out(",\"0\",\"0\"]"); break;
                }
            }
            out("]");
#else
            (void)t;
            out("\"has\":false");
#endif
            break;
        }
        case 'R': { /* ranges as far as they were learned */
            int t = (int)num();
#ifndef NO_WALK
            struct config* cf = trees[t]->config;
            out("\"has\":true,\"rng\":[");
            for(size_t i = 0; i < cf->attr_domain_count; i++) {
                const struct attr_domain* d = cf->attr_domains[i];
                out("%s[\"%s\"", i ? "," : "", type_name(d->bound.value_type));
                switch(d->bound.value_type) {
                    case BETREE_INTEGER:
                    case BETREE_INTEGER_LIST: out(",\"%" PRId64 "\",\"%" PRId64 "\"]", d->bound.imin, d->bound.imax); break;
                    case BETREE_FLOAT:
                        if(d->bound.fmin == -DBL_MAX) out(",\"-inf\"");
                        else out(",\"%.6f\"", d->bound.fmin);
                        if(d->bound.fmax == DBL_MAX) out(",\"inf\"]");
                        else out(",\"%.6f\"]", d->bound.fmax);
                        break;
                    case BETREE_STRING:
                    case BETREE_STRING_LIST:
                    case BETREE_INTEGER_ENUM:
                        if(d->bound.smax >= SIZE_MAX - 1) out(",\"0\",\"inf\"]");
                        else out(",\"0\",\"%zu\"]", d->bound.smax);
                        break;
                    default: out(",\"0\",\"0\"]"); break;
                }
            }
            out("]");
#else
            (void)t;
            out("\"has\":false");
#endif
            break;
        }
        case 'P': { /* printed form and copy of a built expression */
            int t = (int)num();
            int slot = (int)num();
            (void)t;
#ifndef NO_AST
            const struct ast_node* e = slots[slot] ? slots[slot]->expr : NULL;
            if(e == NULL) {
                out("\"has\":false");
                break;
            }
            char* a = ast_to_string(e);
            struct ast_node* c1 = clone_node(e);
            struct ast_node* c2 = clone_node(c1);
            bool eq = eq_expr(e, c1) && eq_expr(c2, e) && expr_cmp(e, c1) == 0 && expr_cmp(c2, e) == 0;
            free_ast_node(c1);
            char* b = ast_to_string(c2);
            free_ast_node(c2);
            out("\"has\":true,\"eq\":%s,\"text\":\"", eq ? "true" : "false");
            for(char* p = a; *p; p++) out("%02x", (unsigned char)*p);
            out("\",\"copy\":\"");
            for(char* p = b; *p; p++) out("%02x", (unsigned char)*p);
            out("\"");
            free(a);
            free(b);
#else
            (void)slot;
            out("\"has\":false");
#endif
            break;
        }
        case 'C': { /* a copy of a built expression as an expression of its own */
            int t = (int)num();
            int slot = (int)num();
            int to = (int)num();
            betree_sub_t id = (betree_sub_t)num();
            (void)t; (void)id;
#ifndef NO_AST
            slots[to] = NULL;
            if(slots[slot] == NULL) {
                out("\"has\":false");
                break;
            }
            struct ast_node* c1 = clone_node(slots[slot]->expr);
            assign_pred_id(trees[t]->config, c1);
            slots[to] = make_sub(trees[t]->config, id, c1);
            out("\"has\":true");
#else
            slots[to] = NULL;
            (void)slot;
            out("\"has\":false");
#endif
            break;
        }
        case 'Q': { /* order and equality of built expressions */
            int t = (int)num();
            size_t n = (size_t)num();
            (void)t;
#ifndef NO_AST
            static int sl[MAXS];
            size_t m = 0;
            for(size_t i = 0; i < n; i++) {
                sl[m] = (int)num();
                if(slots[sl[m]]) m++;
            }
            out("\"has\":true,\"slots\":[");
            for(size_t i = 0; i < m; i++) out("%s%d", i ? "," : "", sl[i]);
            out("],\"cmp\":[");
            for(size_t i = 0; i < m; i++) {
                out("%s[", i ? "," : "");
                for(size_t j = 0; j < m; j++) {
                    int c = expr_cmp(slots[sl[i]]->expr, slots[sl[j]]->expr);
                    out("%s%d", j ? "," : "", c < 0 ? -1 : c > 0);
                }
                out("]");
            }
            out("],\"eq\":[");
            for(size_t i = 0; i < m; i++) {
                out("%s[", i ? "," : "");
                for(size_t j = 0; j < m; j++)
                    out("%s%s", j ? "," : "", eq_expr(slots[sl[i]]->expr, slots[sl[j]]->expr) ? "true" : "false");
                out("]");
            }
            out("]");
#else
            (void)n;
            out("\"has\":false");
#endif
            break;
        }
        case 'F': {
            int t = (int)num();
            if(reports[t]) free_report(reports[t]);
            reports[t] = NULL;
            if(owned[t]) {
                betree_deinit(trees[t]);
                free(trees[t]);
            }
            else betree_free(trees[t]);
            trees[t] = NULL;
            out("\"ret\":true");
            break;
        }
        case 'L': {
            long h = heap_now();
            out("\"has\":%s,\"heap\":%ld", h >= 0 ? "true" : "false", h >= 0 ? h - heap0 : 0);
            break;
        }
        default:
            fprintf(stderr, "driver: unknown command %s\n", c);
            _exit(93);
    }
    out("}\n");
    (void)start;
}

/* a call that allocates without end is an observation, too */
static void bound_memory(void)
{
    FILE* f = fopen("/proc/self/status", "r");
    if(f == NULL) return;
    char line[256];
    unsigned long kb = 0;
    while(fgets(line, sizeof line, f))
        if(sscanf(line, "VmData: %lu", &kb) == 1) break;
    fclose(f);
    if(kb == 0) return;
    struct rlimit rl;
    rl.rlim_cur = rl.rlim_max = kb * 1024ul + (3ul << 30);
    setrlimit(RLIMIT_DATA, &rl);
}

int main(int argc, char** argv)
{
    if(argc != 3) return 2;
    FILE* f = strcmp(argv[1], "-") == 0 ? stdin : fopen(argv[1], "r");
    if(!f) return 2;
    size_t cap = 1 << 20, len = 0;
    char* text = malloc(cap + 1);
    for(;;) {
        size_t n = fread(text + len, 1, cap - len, f);
        if(n == 0) break;
        len += n;
        if(len == cap) {
            cap *= 2;
            text = realloc(text, cap + 1);
        }
    }
    text[len] = 0;
    ofd = strcmp(argv[2], "-") == 0 ? 1 : open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if(ofd < 0) return 2;
    if(ofd == 1) ofd = dup(1);
    obuf = mmap(NULL, OCAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if(obuf == MAP_FAILED) return 2;
    /* the library prints diagnostics on stdout: keep them away from the results */
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    if(getenv("DRIVER_STDERR") == NULL) dup2(nul, 2);

    char* p = text;
    long k = 0;
    int hung = 0;
    while(*p) {
        /* one scenario: [p, e) */
        if(*p != 'N') return 3;
        char* nl = strchr(p, '\n');
        char* e = nl + 1;
        long k0 = k + 1, kn = k + 1;
        while(*e && *e != 'N') {
            e = strchr(e, '\n') + 1;
            kn++;
        }
        if(hung >= 2) {
            /* after two endless scenarios the others are left for another run */
            out("{\"k\":-1,\"end\":%ld,\"code\":-2}\n", k0 - 1);
            flush_out();
            k = kn;
            p = e;
            continue;
        }
        pid_t pid = fork();
        if(pid < 0) return 4;
        if(pid == 0) {
            struct rlimit rl = { 120, 120 };
            setrlimit(RLIMIT_CPU, &rl);
            struct rlimit rc = { 0, 0 };
            setrlimit(RLIMIT_CORE, &rc);
            bound_memory();
            printf(" ");
            fflush(stdout);
            long heap0 = heap_now();
            char* l = nl + 1;
            long kk = k0;
            while(l < e) {
                char* n = strchr(l, '\n');
                *n = 0;
                /* an endless loop in one call is an observation, too */
                alarm(40);
                run_command(l, kk++, heap0);
                flush_out();
                l = n + 1;
            }
            _exit(0);
        }
        int st = 0;
        while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        int code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
        if(code >= 90 && code <= 99) return code;
        if(code == 1000 + SIGALRM || code == 1000 + SIGXCPU) hung++;
        out("{\"k\":-1,\"end\":%ld,\"code\":%d}\n", k0 - 1, code);
        flush_out();
        k = kn;
        p = e;
    }
    return 0;
}
