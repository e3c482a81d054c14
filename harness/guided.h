/*
 * Coverage-guided generation (the "guided" flavour). A case which executes
 * something new, or some branch a new number of times, or compares values in the
 * library which are closer to each other than ever, is kept: its choices, cut into
 * operations. Most cases are then made from kept ones: operations are dropped,
 * repeated, exchanged, taken from other cases, their choices changed, and the
 * history is continued with fresh operations.
 */
enum { G_CTR_MAX = 1 << 16, G_CMP_BITS = 18, G_CORPUS = 4096, G_POOL = 1 << 25, G_LOG = 1 << 14,
       G_BUF = 1 << 18, G_SEGS = 1 << 14 };

struct Guided {
	uint8_t seen[G_CTR_MAX];
	uint8_t cmp[1 << G_CMP_BITS];	/* 1 in this case, 2 in one before */
	uint32_t touched[1 << 14];	/* of cmp, in this case */
	uint32_t ntouched;
	uint64_t features, kept, dropped;
	struct Entry {
		uint64_t at;
		uint32_t len, ops;
		uint64_t ops_at;
	} corpus[G_CORPUS];
	uint32_t n;
	uint64_t used;
	uint64_t pool[G_POOL];
};
static Guided *G;
static uint64_t g_buf[G_BUF];
static Src::Seg_ g_seg[G_SEGS];

static struct { uint8_t *b, *e; } g_ctr[64];
static int g_nctr;
static bool g_on;
static clock_t g_clock;

extern "C" {
void
__sanitizer_cov_8bit_counters_init(uint8_t *b, uint8_t *e)
{
	for (int i = 0; i < g_nctr; i++)
		if (g_ctr[i].b == b)
			return;
	if (b < e && g_nctr < 64) {
		g_ctr[g_nctr].b = b;
		g_ctr[g_nctr++].e = e;
	}
}

static inline void
g_compare(uintptr_t pc, uint64_t a, uint64_t b)
{
	if (!g_on)
		return;
	uint64_t d = a > b ? a - b : b - a;
	unsigned bucket = a == b ? 0 : (a > b ? 64 : 0) + 64 - __builtin_clzll(d);
	/* (exact for small differences) */
	if (d && d <= 8)
		bucket = (a > b ? 200 : 216) + d;
	uint32_t i = mix(pc * 251 + bucket) & ((1 << G_CMP_BITS) - 1);
	if (G->cmp[i] == 0 && G->ntouched < 1 << 14) {
		G->cmp[i] = 1;
		G->touched[G->ntouched++] = i;
	}
}
#define PC ((uintptr_t)__builtin_return_address(0))
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { g_compare(PC, a, b); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { g_compare(PC, a, b); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { g_compare(PC, a, b); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { g_compare(PC, a, b); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { g_compare(PC, a, b); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { g_compare(PC, a, b); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { g_compare(PC, a, b); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { g_compare(PC, a, b); }
void
__sanitizer_cov_trace_switch(uint64_t v, uint64_t *c)
{
	for (uint64_t i = 0; i < c[0]; i++)
		g_compare(PC + i, v, c[2 + i]);
}
}

static void
guided_reset()
{
	if (!G) {
		G = (Guided *)mmap(NULL, sizeof(Guided), PROT_READ | PROT_WRITE,
				   MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (G == MAP_FAILED) {
			perror("mmap");
			_exit(2);
		}
		return;
	}
	memset(G, 0, offsetof(Guided, pool));
}

/* The choices of one operation of a kept case; where more() was recorded there is a 1. */
static size_t
g_copy(size_t at, const uint64_t *from, size_t n)
{
	if (at + n > G_BUF)
		return at;
	memcpy(g_buf + at, from, n * sizeof(*from));
	return at + n;
}

static const Guided::Entry &
g_choose(Src &s)
{
	uint64_t r = s.next();
	/* recent ones more often */
	uint64_t n = r & 1 ? G->n : 1 + G->n / 4;
	return G->corpus[G->n - 1 - (r >> 8) % n];
}

static void
g_perturb(Src &s, size_t from, size_t to)
{
	if (from >= to)
		return;
	for (unsigned k = 1 + s.next() % 3; k-- > 0;) {
		size_t i = from + s.next() % (to - from);
		uint64_t r = s.next();
		switch (r % 6) {
		case 0: g_buf[i] = 0; break;
		case 1: g_buf[i] += 1 + (r >> 8) % 4; break;
		case 2: g_buf[i] -= std::min<uint64_t>(g_buf[i], 1 + (r >> 8) % 4); break;
		case 3: g_buf[i] = g_buf[from + (r >> 8) % (to - from)]; break;
		case 4: g_buf[i] = r >> 8; break;
		default: g_buf[i] = (r >> 16) >> ((r >> 8) % 48);
		}
	}
}

static void
guided_start(Src &s, uint64_t c)
{
	for (int i = 0; i < g_nctr; i++)
		memset(g_ctr[i].b, 0, g_ctr[i].e - g_ctr[i].b);
	for (uint32_t i = 0; i < G->ntouched; i++)
		if (G->cmp[G->touched[i]] == 1)
			G->cmp[G->touched[i]] = 0;
	G->ntouched = 0;
	g_on = true;
	g_clock = clock();
	if (G->n < 16 || s.next() % 4 == 0)
		return;		/* a fresh case */
	const Guided::Entry &e = g_choose(s), &f = g_choose(s);
	const uint64_t *l = G->pool + e.at, *o = G->pool + e.ops_at;
	size_t at = g_copy(0, l, e.ops ? o[0] : e.len), nseg = 0;
	s.hybrid = true;
	s.in = g_buf;
	s.n_in = at;
	uint64_t r = s.next();
	if (r % 8 == 0)
		g_perturb(s, 0, at);
	unsigned how = (r >> 8) % 8;
	/* keep a part of the history */
	size_t a = 0, b = e.ops;
	if (how == 0 && e.ops > 1)
		b = 1 + (r >> 16) % e.ops;
	size_t cut = e.ops ? (r >> 24) % e.ops : 0, cutn = 1 + (r >> 40) % 4, rep = 1;
	if (s.next() % 4 == 0)
		cutn = 1 + s.next() % (e.ops + 1);
	auto put = [&](const Guided::Entry &x, size_t k) {
		const uint64_t *xl = G->pool + x.at, *xo = G->pool + x.ops_at;
		size_t p = xo[k] + 1, q = k + 1 < x.ops ? xo[k + 1] : x.len;
		if (q < p || nseg >= G_SEGS || at + (q - p) > G_BUF)
			return;
		size_t from = at;
		at = g_copy(at, xl + p, q - p);
		g_seg[nseg].from = from;
		g_seg[nseg++].to = at;
	};
	double density = e.ops ? 2.0 / e.ops : 1;
	for (size_t k = a; k < b; k++) {
		if (how == 1 && k >= cut && k < cut + cutn)
			continue;	/* dropped */
		if (how == 2 && k == cut)
			for (size_t j = 0; f.ops && j < cutn; j++)
				put(f, (cut + j) % f.ops);
		put(e, k);
		if (how == 3 && k == cut)
			for (rep = 1 + s.next() % 40; rep-- > 0;)
				for (size_t j = 0; j < cutn && j <= k && cutn < 8; j++)
					put(e, k + 1 - cutn + j < e.ops ? k + 1 - cutn + j : k);
		if (how >= 5 && nseg && (double)(s.next() >> 11) / (1ULL << 53) < density)
			g_perturb(s, g_seg[nseg - 1].from, g_seg[nseg - 1].to);
	}
	if (how == 4 && nseg > 1) {
		for (unsigned j = 1 + s.next() % 3; j-- > 0;)
			std::swap(g_seg[s.next() % nseg], g_seg[s.next() % nseg]);
	}
	s.seg = g_seg;
	s.nseg = nseg;
	/* and go on */
	if (s.next() % 2)
		s.ops_left = std::min<uint64_t>(s.ops_left, nseg + 4);
	else
		s.ops_left = s.next() % 4;
	if (nseg + s.ops_left > 2 * opt.max_ops)
		s.ops_left = nseg > 2 * opt.max_ops ? 0 : 2 * opt.max_ops - nseg;
	(void)c;
}

static void
guided_done(Src &s, uint64_t c)
{
	(void)s;
	g_on = false;
	unsigned news = 0;
	size_t base = 0;
	for (int i = 0; i < g_nctr; i++) {
		for (uint8_t *p = g_ctr[i].b; p < g_ctr[i].e; p++) {
			if (!*p)
				continue;
			uint8_t bit = *p < 4 ? 1 << (*p - 1) : *p < 8 ? 8 : *p < 16 ? 16 : *p < 32 ? 32 :
				*p < 128 ? 64 : 128;
			size_t k = (base + (p - g_ctr[i].b)) % G_CTR_MAX;
			if (!(G->seen[k] & bit)) {
				G->seen[k] |= bit;
				news++;
			}
		}
		base += g_ctr[i].e - g_ctr[i].b;
	}
	for (uint32_t i = 0; i < G->ntouched; i++) {
		if (G->cmp[G->touched[i]] == 1) {
			G->cmp[G->touched[i]] = 2;
			news++;
		}
	}
	G->ntouched = 0;
	G->features += news;
	(void)c;
	/* (what takes long is not for repeating) */
	if (!news || clock() - g_clock > CLOCKS_PER_SEC / 5 || shm->nlog > G_LOG || shm->nops >= G_SEGS)
		return;
	if (G->n == G_CORPUS || G->used + shm->nlog + shm->nops > G_POOL) {
		G->dropped++;
		return;
	}
	Guided::Entry &e = G->corpus[G->n];
	e.at = G->used;
	e.len = shm->nlog;
	memcpy(G->pool + e.at, shm->log, e.len * sizeof(uint64_t));
	e.ops_at = e.at + e.len;
	e.ops = shm->nops;
	for (uint32_t i = 0; i < e.ops; i++)
		G->pool[e.ops_at + i] = shm->opstart[i];
	G->used = e.ops_at + e.ops;
	G->n++;
}

static void
guided_stats()
{
	pbt_count("guided: cases kept", G->n);
	pbt_count("guided: features", G->features);
}
