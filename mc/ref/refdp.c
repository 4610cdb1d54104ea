/* Reference: least number of tokens for a text, by forward search in a trie of
 * all strings that have a token or a fallback sequence. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef struct { int32_t next[256]; int64_t cost; } node;

struct ref { node *n; int32_t used, size; int maxlen; };

static int32_t fresh(struct ref *r)
{
    if (r->used == r->size) {
        r->size = r->size ? r->size * 2 : 64;
        r->n = realloc(r->n, r->size * sizeof(node));
    }
    node *x = &r->n[r->used];
    memset(x->next, -1, sizeof x->next);
    x->cost = -1;
    return r->used++;
}

struct ref *ref_new(void)
{
    struct ref *r = calloc(1, sizeof *r);
    fresh(r);
    return r;
}

void ref_free(struct ref *r) { free(r->n); free(r); }

void ref_add(struct ref *r, const uint8_t *s, int64_t len, int64_t cost)
{
    int32_t at = 0;
    for (int64_t i = 0; i < len; i++) {
        if (r->n[at].next[s[i]] < 0) {
            int32_t f = fresh(r);
            r->n[at].next[s[i]] = f;
        }
        at = r->n[at].next[s[i]];
    }
    if (r->n[at].cost < 0 || cost < r->n[at].cost) r->n[at].cost = cost;
    if (len > r->maxlen) r->maxlen = len;
}

/* -1: the text can't be expressed. */
int64_t ref_cost(struct ref *r, const uint8_t *s, int64_t len)
{
    int64_t w = r->maxlen + 1, *c = malloc(w * sizeof *c), res;
    for (int64_t i = 0; i < w; i++) c[i] = -1;
    c[0] = 0;
    for (int64_t i = 0; i < len; i++) {
        int64_t here = c[i % w];
        c[i % w] = -1;
        if (here < 0) continue;
        int32_t at = 0;
        for (int64_t j = i; j < len; j++) {
            at = r->n[at].next[s[j]];
            if (at < 0) break;
            if (r->n[at].cost >= 0) {
                int64_t *t = &c[(j + 1) % w];
                if (*t < 0 || here + r->n[at].cost < *t) *t = here + r->n[at].cost;
            }
        }
    }
    res = c[len % w];
    free(c);
    return res;
}
