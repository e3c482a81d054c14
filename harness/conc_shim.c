#include "conc_shim.h"
ssize_t cs_quota_use(struct quota *q, size_t n) { return quota_use(q, n); }
ssize_t cs_quota_release(struct quota *q, size_t n) { return quota_release(q, n); }
ssize_t cs_quota_set(struct quota *q, size_t n) { return quota_set(q, n); }
size_t cs_quota_total(struct quota *q) { return quota_total(q); }
size_t cs_quota_used(struct quota *q) { return quota_used(q); }
void cs_quota_get(struct quota *q, size_t *t, size_t *u) { quota_get_total_and_used(q, t, u); }
void cs_lf_push(struct lf_lifo *h, void *e) { lf_lifo_push(h, e); }
void *cs_lf_pop(struct lf_lifo *h) { return lf_lifo_pop(h); }
int cs_lf_empty(struct lf_lifo *h) { return lf_lifo_is_empty(h); }
void cs_scribble(void *e, unsigned long v) { *(unsigned long *)e = v; }
