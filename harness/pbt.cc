#include "pbt.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <unordered_set>
#include <algorithm>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define HAVE_ASAN 1
#endif

extern "C" {
__attribute__((used, visibility("default"))) const char *
__asan_default_options(void)
{
	return "exitcode=71:abort_on_error=0:detect_leaks=0:"
	       "allocator_may_return_null=1:handle_abort=0:"
	       "allocator_release_to_os_interval_ms=-1:"
	       "quarantine_size_mb=16:detect_stack_use_after_return=0:"
	       "max_allocation_size_mb=8192:print_legend=0:symbolize=0";
}
__attribute__((used, visibility("default"))) const char *
__ubsan_default_options(void)
{
	return "exitcode=72:halt_on_error=1:print_stacktrace=0:symbolize=0";
}
}

#ifndef PBT_CPU_LIMIT
#define PBT_CPU_LIMIT 25
#endif
enum { LOG_MAX = 1 << 19, OPS_MAX = 1 << 16, NCLASS = 256, NAME_MAX_ = 56,
       CPU_LIMIT_S = PBT_CPU_LIMIT, SEGMENT = 2000 };

struct Shm {
	uint64_t case_no;
	uint64_t nlog;
	uint64_t nops;
	uint64_t log[LOG_MAX];
	uint32_t opstart[OPS_MAX];
	char sig[128];
	char msg[4096];
	/* results */
	uint64_t evaluations;
	uint64_t nontrivial;
	uint64_t total_ops;
	uint64_t max_ops_seen;
	uint64_t cls_count[NCLASS];
	char cls_name[NCLASS][NAME_MAX_];
	uint64_t ncls;
	uint64_t sample_case[4];
	uint64_t nsample;
	char trace[1 << 16];
};

static Shm *shm;
Src *cur_src;
unsigned pbt_scale = 1;

static inline uint64_t
mix(uint64_t x)
{
	x += 0x9e3779b97f4a7c15ULL;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
	return x ^ (x >> 31);
}

uint64_t
Src::next()
{
	rng += 0x9e3779b97f4a7c15ULL;
	return mix(rng);
}

static void
log_value(uint64_t v)
{
	if (shm->nlog < LOG_MAX)
		shm->log[shm->nlog++] = v;
}

uint64_t
Src::draw(uint64_t n)
{
	uint64_t v;
	if (n <= 1)
		return 0;
	if (hybrid) {
		v = pos < n_in ? in[pos++] : (uint64_t)(((unsigned __int128)next() * n) >> 64);
		if (v >= n)
			v %= n;
	} else if (replay) {
		v = pos < n_in ? in[pos] : 0;
		pos++;
		if (v >= n)
			v %= n;
	} else {
		v = (uint64_t)(((unsigned __int128)next() * n) >> 64);
	}
	log_value(v);
	return v;
}

bool
Src::more()
{
	if (shm->nops < OPS_MAX)
		shm->opstart[shm->nops] = (uint32_t)shm->nlog;
	bool v;
	if (hybrid && iseg < nseg && shm->nlog < LOG_MAX - 4096) {
		/* the choices of one operation; if it needs more, fresh ones */
		pos = seg[iseg].from;
		n_in = seg[iseg++].to;
		v = true;
	} else if (replay) {
		v = pos < n_in ? (in[pos] != 0) : false;
		pos++;
	} else {
		pos = n_in;
		/* Very long logs cannot be shrunk or replayed: stop. */
		v = ops_left > 0 && shm->nlog < LOG_MAX - 4096;
		if (v)
			ops_left--;
	}
	log_value(v);
	if (v) {
		if (shm->nops < OPS_MAX)
			shm->nops++;
		nops++;
	}
	return v;
}

uint64_t
Src::logsize(uint64_t max)
{
	if (max == 0)
		return 0;
	unsigned bits = 64 - __builtin_clzll(max);
	unsigned b = draw(bits + 1);
	if (b == 0)
		return 0;
	uint64_t lo = 1ULL << (b - 1);
	uint64_t hi = b == 64 ? UINT64_MAX : (1ULL << b) - 1;
	if (hi > max)
		hi = max;
	return lo + draw(hi - lo + 1);
}

unsigned
Src::weighted(std::initializer_list<unsigned> w)
{
	unsigned sum = 0;
	for (unsigned x : w)
		sum += x;
	unsigned v = draw(sum), i = 0;
	for (unsigned x : w) {
		if (v < x)
			return i;
		v -= x;
		i++;
	}
	return 0;
}

uint64_t
Src::nearby(uint64_t lo, uint64_t hi, std::initializer_list<uint64_t> pts)
{
	unsigned k = draw(4);
	uint64_t v;
	if (k < 2) {
		v = lo + logsize(hi - lo);
	} else if (k == 2 || pts.size() == 0) {
		v = range(lo, hi);
	} else {
		v = pts.begin()[draw(pts.size())];
		uint64_t d = draw(20);
		/* -2..2 mostly, sometimes a bit farther */
		static const int off[20] = {0, 1, -1, 0, 1, -1, 2, -2, 3, 4, 7,
			8, 15, 16, 31, 32, -8, -16, -32, 64};
		v += off[d];
	}
	if (v < lo)
		v = lo;
	if (v > hi)
		v = hi;
	return v;
}

void
pbt_fail(const char *sig, const char *file, int line, const char *fmt, ...)
{
	char buf[3000];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	const char *b = strrchr(file, '/');
	snprintf(shm->sig, sizeof(shm->sig), "%s", sig);
	snprintf(shm->msg, sizeof(shm->msg), "[%s] %s (%s:%d)", sig, buf,
		 b ? b + 1 : file, line);
	_exit(70);
}

void
pbt_count(const char *name, uint64_t n)
{
	static const char *last_ptr[8];
	static int last_idx[8];
	static int rr;
	for (int i = 0; i < 8; i++) {
		if (last_ptr[i] == name) {
			shm->cls_count[last_idx[i]] += n;
			return;
		}
	}
	uint64_t i;
	for (i = 0; i < shm->ncls; i++) {
		if (strncmp(shm->cls_name[i], name, NAME_MAX_ - 1) == 0)
			break;
	}
	if (i == shm->ncls) {
		if (i == NCLASS)
			return;
		snprintf(shm->cls_name[i], NAME_MAX_, "%s", name);
		shm->ncls++;
	}
	shm->cls_count[i] += n;
	last_ptr[rr] = name;
	last_idx[rr] = i;
	rr = (rr + 1) & 7;
}

void
pbt_trace(const char *fmt, ...)
{
	char buf[1024];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	cur_src->trace += buf;
	cur_src->trace += '\n';
	/* Keep the end of the trace where it survives a crash. */
	size_t l = strlen(shm->trace), n = strlen(buf);
	if (l + n + 2 > sizeof(shm->trace)) {
		size_t keep = sizeof(shm->trace) / 2;
		memmove(shm->trace, shm->trace + l - keep, keep + 1);
		l = keep;
	}
	memcpy(shm->trace + l, buf, n);
	shm->trace[l + n] = '\n';
	shm->trace[l + n + 1] = 0;
}

struct Opts {
	uint64_t seed = 1, shard = 0, cases = 100;
	unsigned max_ops = 0;
	std::string out, hashes, replay_out, prop, stderr_path;
	uint64_t time_cap = 0;
} opt;

static void
start_case(Src &s, uint64_t case_no)
{
	shm->case_no = case_no;
	shm->nlog = 0;
	shm->nops = 0;
	s.rng = mix(mix(opt.seed * 0x100000001b3ULL + opt.shard) ^ mix(case_no + 77));
	s.salt = mix(s.rng);
	/* Log-uniform length, reaching max_ops. */
	uint64_t r = s.next();
	unsigned maxb = 64 - __builtin_clzll(opt.max_ops);
	unsigned b = 2 + (r >> 32) % (maxb > 2 ? maxb - 1 : 1);
	uint64_t hi = 1ULL << b;
	if (hi > opt.max_ops)
		hi = opt.max_ops;
	s.ops_left = 1 + (r & 0xffffffff) % hi;
}

#ifdef PBT_GUIDED
#include "guided.h"
#else
static inline void guided_reset() {}
static inline void guided_start(Src &, uint64_t) {}
static inline void guided_done(Src &, uint64_t) {}
static inline void guided_stats() {}
#endif

static void
set_cpu_timer(unsigned s)
{
	struct itimerval it = {};
	it.it_value.tv_sec = s;
	setitimer(ITIMER_PROF, &it, NULL);
}

/* Run cases [from, to) in this process. */
static void
worker(uint64_t from, uint64_t to, FILE *hashf)
{
	for (uint64_t c = from; c < to; c++) {
		Src s;
		cur_src = &s;
		start_case(s, c);
		guided_start(s, c);
		set_cpu_timer(CPU_LIMIT_S);
		run_case(s);
		guided_done(s, c);
		shm->evaluations++;
		shm->total_ops += s.nops;
		if (s.nops > shm->max_ops_seen)
			shm->max_ops_seen = s.nops;
		if (s.is_nontrivial) {
			shm->nontrivial++;
			uint64_t h = 1469598103934665603ULL;
			for (uint64_t i = 0; i < shm->nlog; i++)
				h = (h ^ shm->log[i]) * 1099511628211ULL + (h >> 29);
			if (hashf)
				fwrite(&h, 8, 1, hashf);
			if (shm->nsample < 3 && s.nops <= 40 && !s.hybrid)
				shm->sample_case[shm->nsample++] = c;
		}
		cur_src = NULL;
	}
	set_cpu_timer(0);
}

static void
run_log(const uint64_t *log, size_t n, bool tracing)
{
	Src s;
	cur_src = &s;
	s.replay = true;
	s.in = log;
	s.n_in = n;
	s.tracing = tracing;
	shm->nlog = shm->nops = 0;
	set_cpu_timer(CPU_LIMIT_S);
	run_case(s);
	set_cpu_timer(0);
	cur_src = NULL;
}

static void
child_setup(void)
{
	int fd = open(opt.stderr_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd >= 0) {
		dup2(fd, 2);
		close(fd);
	}
	signal(SIGPROF, SIG_DFL);
	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);
	/* A runaway allocation must not take the machine down. */
#ifndef HAVE_ASAN
	rl.rlim_cur = rl.rlim_max = 80ULL << 30;
	setrlimit(RLIMIT_DATA, &rl);
#endif
}

static std::string
status_sig(int st)
{
	char b[64];
	if (WIFSIGNALED(st)) {
		int sg = WTERMSIG(st);
		if (sg == SIGPROF)
			return "hang";
		snprintf(b, sizeof(b), "signal %d", sg);
		return b;
	}
	int e = WEXITSTATUS(st);
	if (e == 70)
		return shm->sig;
	if (e == 71)
		return "asan";
	if (e == 72)
		return "ubsan";
	snprintf(b, sizeof(b), "exit %d", e);
	return b;
}

template <class F> static std::string
in_child(F f)
{
	shm->sig[0] = shm->msg[0] = shm->trace[0] = 0;
	fflush(NULL);
	pid_t p = fork();
	if (p == 0) {
		child_setup();
		f();
		_exit(0);
	}
	int st;
	while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
		return "";
	return status_sig(st);
}

static std::string
try_log(const std::vector<uint64_t> &l, bool tracing = false)
{
	return in_child([&] { run_log(l.data(), l.size(), tracing); });
}

static double
now(void)
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

/* Shrink a failing log; sets log to the smallest one found. */
static unsigned
shrink(std::vector<uint64_t> &log, const std::string &sig)
{
	unsigned execs = 0;
	double t0 = now();
	auto budget = [&] { return execs < 4000 && now() - t0 < 45; };
	std::vector<uint32_t> ops;
	auto attempt = [&](const std::vector<uint64_t> &c) {
		execs++;
		std::string r = try_log(c);
		if (r != sig)
			return false;
		/* Adopt the normalised log (what was actually drawn). */
		std::vector<uint64_t> n(shm->log, shm->log + shm->nlog);
		while (!n.empty() && n.back() == 0)
			n.pop_back();
		auto c2 = c;
		while (!c2.empty() && c2.back() == 0)
			c2.pop_back();
		if (n.size() < c2.size() || (n.size() == c2.size() && n <= c2))
			log = n;
		else
			log = c2;
		ops.assign(shm->opstart, shm->opstart + shm->nops);
		return true;
	};
#ifdef PBT_NO_SHRINK
	return 0;		/* a case takes too long */
#endif
	if (sig == "hang" || getenv("PBT_NO_SHRINK"))
		return 0;
	if (!attempt(log))
		return execs;
	bool progress = true;
	while (progress && budget()) {
		progress = false;
		/* 1. delete runs of whole operations, from the end */
		for (size_t k = ops.size(); k >= 1 && budget(); k /= 2) {
			for (size_t i = ops.size(); i > 0 && budget();) {
				size_t lo = i > k ? i - k : 0;
				size_t b = ops[lo];
				size_t e = i < ops.size() ? ops[i] : log.size();
				if (b >= log.size() || e > log.size() || b >= e) {
					i = lo;
					continue;
				}
				auto c = log;
				c.erase(c.begin() + b, c.begin() + e);
				if (attempt(c))
					progress = true;
				if (lo == 0)
					break;
				i = std::min(lo, ops.size());
			}
		}
		/* 2. delete small chunks of raw choices */
		for (size_t k = 4; k >= 1 && budget(); k /= 2) {
			for (size_t i = log.size(); i >= k && budget(); i--) {
				if (i > log.size())
					i = log.size();
				if (i < k)
					break;
				auto c = log;
				c.erase(c.begin() + (i - k), c.begin() + i);
				if (attempt(c))
					progress = true;
			}
			if (log.size() > 600)
				break;
		}
		/* 3. lower values */
		for (size_t i = 0; i < log.size() && budget(); i++) {
			if (log[i] == 0)
				continue;
			auto c = log;
			c[i] = 0;
			if (attempt(c)) {
				progress = true;
				continue;
			}
			if (i >= log.size())
				break;
			uint64_t lo = 0, hi = log[i];
			while (hi - lo > 1 && budget()) {
				uint64_t mid = lo + (hi - lo) / 2;
				auto c2 = log;
				if (i >= c2.size())
					break;
				c2[i] = mid;
				if (attempt(c2)) {
					hi = mid;
					progress = true;
				} else {
					lo = mid;
				}
			}
		}
	}
	return execs;
}

static std::string
read_tail(const std::string &path, size_t max)
{
	FILE *f = fopen(path.c_str(), "r");
	if (!f)
		return "";
	std::string r;
	char buf[4096];
	size_t n;
	while ((n = fread(buf, 1, sizeof(buf), f)) > 0 && r.size() < max)
		r.append(buf, n);
	fclose(f);
	if (r.size() > max)
		r.resize(max);
	return r;
}

static void
json_str(FILE *f, const std::string &s)
{
	fputc('"', f);
	for (unsigned char c : s) {
		if (c == '"' || c == '\\')
			fprintf(f, "\\%c", c);
		else if (c == '\n')
			fputs("\\n", f);
		else if (c < 32 || c > 126)
			fprintf(f, "\\u%04x", c);
		else
			fputc(c, f);
	}
	fputc('"', f);
}

static int
do_replay(const char *path)
{
	FILE *f = fopen(path, "r");
	if (!f) {
		perror(path);
		return 2;
	}
	std::vector<uint64_t> log;
	char line[512];
	bool prefix = false;
	uint64_t from = 0, to = 0;
	bool data = false;
	while (fgets(line, sizeof(line), f)) {
		unsigned long long a, b, c, d;
		unsigned e;
		if (line[0] == '#')
			continue;
		if (sscanf(line, "prefix seed=%llu shard=%llu from=%llu to=%llu max_ops=%u",
			   &a, &b, &c, &d, &e) == 5) {
			prefix = true;
			opt.seed = a;
			opt.shard = b;
			from = c;
			to = d;
			opt.max_ops = e;
		} else if (strncmp(line, "choices", 7) == 0) {
			data = true;
		} else if (data) {
			char *p = line, *end;
			for (;;) {
				unsigned long long v = strtoull(p, &end, 10);
				if (end == p)
					break;
				log.push_back(v);
				p = end;
			}
		}
	}
	fclose(f);
	std::string sig = prefix ?
		in_child([&] { guided_reset(); worker(from, to, NULL); }) : try_log(log, true);
	if (!prefix)
		printf("%s", shm->trace);
	if (sig.empty()) {
		printf("replay: property held\n");
		return 0;
	}
	printf("replay: FAILED [%s] %s\n", sig.c_str(), shm->msg);
	printf("%s\n", read_tail(opt.stderr_path, 3000).c_str());
	return 1;
}

static void
write_stats(int violated, const std::string &sig, const std::string &msg,
	    const std::vector<std::string> &samples)
{
	FILE *f = fopen(opt.out.c_str(), "w");
	if (!f)
		return;
	fprintf(f, "{\"evaluations\":%llu,\"nontrivial\":%llu,\"total_ops\":%llu,"
		"\"max_ops\":%llu,\"violated\":%d,",
		(unsigned long long)shm->evaluations,
		(unsigned long long)shm->nontrivial,
		(unsigned long long)shm->total_ops,
		(unsigned long long)shm->max_ops_seen, violated);
	fprintf(f, "\"rule\":");
	json_str(f, case_rule);
	fprintf(f, ",\"sig\":");
	json_str(f, sig);
	fprintf(f, ",\"msg\":");
	json_str(f, msg);
	fprintf(f, ",\"classes\":{");
	for (uint64_t i = 0; i < shm->ncls; i++) {
		if (i)
			fputc(',', f);
		json_str(f, shm->cls_name[i]);
		fprintf(f, ":%llu", (unsigned long long)shm->cls_count[i]);
	}
	fprintf(f, "},\"samples\":[");
	for (size_t i = 0; i < samples.size(); i++) {
		if (i)
			fputc(',', f);
		json_str(f, samples[i]);
	}
	fprintf(f, "]}\n");
	fclose(f);
}

int
main(int argc, char **argv)
{
	const char *replay = NULL;
	opt.max_ops = case_max_ops;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() -> const char * {
			return i + 1 < argc ? argv[++i] : "";
		};
		if (a == "--seed") opt.seed = strtoull(val(), 0, 10);
		else if (a == "--shard") opt.shard = strtoull(val(), 0, 10);
		else if (a == "--cases") opt.cases = strtoull(val(), 0, 10);
		else if (a == "--max-ops") opt.max_ops = atoi(val());
		else if (a == "--scale") pbt_scale = atoi(val());
		else if (a == "--out") opt.out = val();
		else if (a == "--hashes") opt.hashes = val();
		else if (a == "--replay-out") opt.replay_out = val();
		else if (a == "--prop") opt.prop = val();
		else if (a == "--time-cap") opt.time_cap = atoi(val());
		else if (a == "--replay") replay = val();
		else { fprintf(stderr, "bad option %s\n", a.c_str()); return 2; }
	}
	if (opt.max_ops == 0)
		opt.max_ops = case_max_ops;
	shm = (Shm *)mmap(NULL, sizeof(Shm), PROT_READ | PROT_WRITE,
			  MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (shm == MAP_FAILED) {
		perror("mmap");
		return 2;
	}
	opt.stderr_path = opt.out.empty() ? "/tmp/pbt-stderr." + std::to_string(getpid())
		: opt.out + ".stderr";
	if (replay) {
		int rc = do_replay(replay);
		if (opt.out.empty())
			unlink(opt.stderr_path.c_str());
		return rc;
	}

	guided_reset();
	double t0 = now();
	std::string sig, msg;
	std::vector<uint64_t> log;
	uint64_t from = 0, to = 0;
	bool capped = false;
	if (!opt.hashes.empty())
		unlink(opt.hashes.c_str());
	for (from = 0; from < opt.cases; from = to) {
		to = std::min<uint64_t>(from + SEGMENT, opt.cases);
		if (opt.time_cap && now() - t0 > opt.time_cap) {
			capped = true;
			break;
		}
		sig = in_child([&] {
			FILE *h = opt.hashes.empty() ? NULL :
				fopen(opt.hashes.c_str(), "ab");
			worker(from, to, h);
			if (h)
				fclose(h);
		});
		if (!sig.empty())
			break;
	}
	guided_stats();
	if (capped)
		pbt_count("time cap reached (run truncated)");

	std::vector<std::string> samples;
	if (sig.empty()) {
		uint64_t n = shm->nsample, smp[4], ev = shm->evaluations,
			nt = shm->nontrivial, to_ = shm->total_ops,
			mo = shm->max_ops_seen;
		std::vector<uint64_t> cls(shm->cls_count, shm->cls_count + NCLASS);
		memcpy(smp, shm->sample_case, sizeof(smp));
		for (uint64_t i = 0; i < n; i++) {
			in_child([&] {
				Src s;
				cur_src = &s;
				s.tracing = true;
				start_case(s, smp[i]);
				run_case(s);
			});
			std::string t = shm->trace;
			if (t.size() > 2500)
				t = t.substr(0, 2500) + "...";
			samples.push_back(t);
		}
		shm->evaluations = ev;
		shm->nontrivial = nt;
		shm->total_ops = to_;
		shm->max_ops_seen = mo;
		memcpy(shm->cls_count, cls.data(), NCLASS * sizeof(uint64_t));
		write_stats(0, "", "", samples);
		return 0;
	}

	/* A failure: save the case, shrink it, replay it. */
	uint64_t failed_case = shm->case_no;
	std::vector<uint64_t> cls(shm->cls_count, shm->cls_count + NCLASS);
	log.assign(shm->log, shm->log + shm->nlog);
	msg = shm->msg;
	std::string err = read_tail(opt.stderr_path, 3000);
	std::vector<uint64_t> orig = log;
	unsigned execs = 0;
	bool reproduced = false, prefix_mode = false;
	std::string first = try_log(log);
	std::string rsig = sig;
	if (!first.empty()) {
		rsig = first;
		execs = shrink(log, rsig);
		int same = 0;
		for (int i = 0; i < 3; i++)
			same += !try_log(log, true).empty();
		if (same < 3) {
			log = orig;
			same = 0;
			for (int i = 0; i < 3; i++)
				same += !try_log(log, true).empty();
		}
		reproduced = same == 3;
		if (reproduced) {
			msg = shm->msg;
			err = read_tail(opt.stderr_path, 3000);
		}
	}
	std::string trace = reproduced ? shm->trace : "";
	if (msg.empty()) {
		/* a crash: say what was printed about it */
		std::string e = err;
		size_t p = e.find("ssertion");
		if (p == std::string::npos)
			p = e.find("ERROR: ");
		if (p == std::string::npos)
			p = e.find("runtime error");
		if (p != std::string::npos) {
			size_t b = e.rfind('\n', p), n = e.find('\n', p);
			b = b == std::string::npos ? 0 : b + 1;
			e = e.substr(b, n == std::string::npos ? n : n - b);
		} else {
			e = "";
		}
		msg = "[" + rsig + "] " + e;
	}
	if (!reproduced) {
#ifdef PBT_GUIDED
		from = 0;	/* (what is kept from earlier cases counts, too) */
#endif
		/* Depends on the preceding cases of this segment. */
		int same = 0;
		for (int i = 0; i < 3; i++)
			same += !in_child([&] {
				guided_reset();
				worker(from, failed_case + 1, NULL); }).empty();
		prefix_mode = reproduced = same == 3;
	}
	FILE *f = fopen(opt.replay_out.c_str(), "w");
	if (f) {
		fprintf(f, "# property %s: %s\n# signature: %s\n# seed %llu shard %llu "
			"case %llu, shrunk with %u executions, %s\n",
			opt.prop.c_str(), msg.c_str(), rsig.c_str(),
			(unsigned long long)opt.seed,
			(unsigned long long)opt.shard,
			(unsigned long long)failed_case, execs,
			reproduced ? "replayed 3 of 3 times" : "NOT reproduced");
		size_t p = 0;
		std::string all = trace + "\n" + err;
		while (p < all.size()) {
			size_t e = all.find('\n', p);
			if (e == std::string::npos)
				e = all.size();
			fprintf(f, "# %s\n", all.substr(p, e - p).c_str());
			p = e + 1;
		}
		if (prefix_mode) {
			fprintf(f, "prefix seed=%llu shard=%llu from=%llu to=%llu max_ops=%u\n",
				(unsigned long long)opt.seed,
				(unsigned long long)opt.shard,
				(unsigned long long)from,
				(unsigned long long)failed_case + 1, opt.max_ops);
		} else {
			fprintf(f, "choices %zu\n", log.size());
			for (size_t i = 0; i < log.size(); i++)
				fprintf(f, "%llu%c", (unsigned long long)log[i],
					i % 16 == 15 ? '\n' : ' ');
			fprintf(f, "\n");
		}
		fclose(f);
	}
	memcpy(shm->cls_count, cls.data(), NCLASS * sizeof(uint64_t));
	write_stats(reproduced ? 1 : 2, rsig, msg, samples);
	return reproduced ? 1 : 3;
}
