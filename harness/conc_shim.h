#pragma once
/* The inline functions under test, compiled with instrumentation. */
#include <small_config.h>
#include "quota.h"
#include "lf_lifo.h"
#include "lifo.h"
#ifdef __cplusplus
extern "C" {
#endif
ssize_t cs_quota_use(struct quota *q, size_t n);
ssize_t cs_quota_release(struct quota *q, size_t n);
ssize_t cs_quota_set(struct quota *q, size_t n);
size_t cs_quota_total(struct quota *q);
size_t cs_quota_used(struct quota *q);
void cs_quota_get(struct quota *q, size_t *t, size_t *u);
void cs_lf_push(struct lf_lifo *h, void *e);
void *cs_lf_pop(struct lf_lifo *h);
int cs_lf_empty(struct lf_lifo *h);
void cs_scribble(void *e, unsigned long v);
#ifdef __cplusplus
}
#endif
