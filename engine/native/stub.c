/* Deterministic stand-in for the external integrator: the mean of the integrand over a fixed lattice.
   Only used when a contract is replayed against the compiled library. */
#include <stddef.h>
typedef int (*integrand_t)(const int*, const double*, const int*, double*, void*);
int verif_suave_points = 12, verif_suave_calls = 0;
void Suave(const int ndim, const int ncomp, integrand_t f, void *u, const int nvec, const double er, const double ea,
  const int flags, const int seed, const int mineval, const int maxeval, const int nnew, const int nmin,
  const double flatness, const char *state, void *spin, int *nregions, int *neval, int *fail,
  double *integral, double *error, double *prob)
{
	(void) nvec; (void) er; (void) ea; (void) flags; (void) seed; (void) mineval; (void) maxeval; (void) nnew; (void) nmin;
	(void) flatness; (void) state; (void) spin;
	static const double g[8] = {0.8191725133961645, 0.6710436067037893, 0.5497004779019703, 0.4503005,
		0.3688711, 0.3021653, 0.2475234, 0.2027624};
	int n, d, c;
	double x[8], y[64];
	for (c=0;c<ncomp;c++) integral[c] = 0.;
	for (n=0;n<verif_suave_points;n++) {
		for (d=0;d<ndim;d++) { double v = 0.5+(n+1)*g[d]; x[d] = v-(long) v; }
		for (c=0;c<ncomp;c++) y[c] = 0.;
		f(&ndim,x,&ncomp,y,u);
		for (c=0;c<ncomp;c++) integral[c] += y[c]/verif_suave_points;
	}
	for (c=0;c<ncomp;c++) { error[c] = 0.1*integral[c]; prob[c] = 0.5; }
	*nregions = 1+verif_suave_calls%5; *neval = verif_suave_points; *fail = verif_suave_calls%3 ? 1 : 0;   /* accuracy reached or not */
	verif_suave_calls++;
}

/* Every block the library allocates goes through here: red zones, a quarantine filled with NaNs after the release,
   and a count of live blocks, so that a replay observes overflows, uses after release, double releases and leaks. */
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <pthread.h>
void *__real_malloc(size_t); void __real_free(void *);
#define RZ 64
#define QMAX 4096
typedef struct { char *base; size_t n; } blk_t;
static blk_t *live_; static size_t nlive_, mlive_;
static blk_t quar_[QMAX]; static size_t qpos_;
static pthread_mutex_t mu_ = PTHREAD_MUTEX_INITIALIZER;
static uint64_t PAT_; 
static void pat(char *p, size_t n) { double v; uint64_t u = 0x7ff8dead0000beefULL; memcpy(&v,&u,8); PAT_ = u; size_t i; for (i=0;i<n;i++) p[i] = ((char *)&u)[i%8]; }
static int patok(const char *p, size_t n) { uint64_t u = 0x7ff8dead0000beefULL; size_t i; for (i=0;i<n;i++) if (p[i]!=((char *)&u)[i%8]) return 0; return 1; }
const char *verif_heap_error = 0;
long verif_live(void) { return (long) nlive_; }
long verif_fail_after = -1;
static void *get(size_t n, int z) {
	char *b = (char *) __real_malloc(n+2*RZ+8);
	if (!b) return 0;
	pat(b,RZ); 
	if (z) memset(b+RZ,0,n); else pat(b+RZ,n);
	pat(b+RZ+n,RZ);
	pthread_mutex_lock(&mu_);
	if (nlive_==mlive_) { size_t m = mlive_ ? 2*mlive_ : 256; blk_t *l = (blk_t *) __real_malloc(m*sizeof(blk_t)); if (mlive_) memcpy(l,live_,nlive_*sizeof(blk_t)); __real_free(live_); live_ = l; mlive_ = m; }
	live_[nlive_].base = b; live_[nlive_++].n = n;
	pthread_mutex_unlock(&mu_);
	return b+RZ;
}
static void chk(blk_t *b) {
	if (!patok(b->base,RZ)) verif_heap_error = "write below a heap block";
	if (!patok(b->base+RZ+b->n,RZ)) verif_heap_error = "write past the end of a heap block";
}
static void put(void *p) {
	char *b; size_t i;
	if (!p) return;
	b = (char *) p-RZ;
	pthread_mutex_lock(&mu_);
	for (i=nlive_;i-->0;) if (live_[i].base==b) break;
	if (i==(size_t)-1) {
		verif_heap_error = "release of an address that is not a live heap block";
		for (i=0;i<QMAX;i++) if (quar_[i].base==b) verif_heap_error = "block released twice";
	}
	else {
		blk_t o = live_[i];
		live_[i] = live_[--nlive_];
		chk(&o);
		pat(o.base+RZ,o.n);
		blk_t *q = &quar_[qpos_++%QMAX];
		if (q->base) { if (!patok(q->base,q->n+2*RZ)) verif_heap_error = "write to a released block"; __real_free(q->base); }
		*q = o;
	}
	pthread_mutex_unlock(&mu_);
}
const char *verif_heap_check(void) {
	size_t i; const char *e;
	pthread_mutex_lock(&mu_);
	for (i=0;i<nlive_;i++) chk(&live_[i]);
	for (i=0;i<QMAX;i++) if (quar_[i].base && !patok(quar_[i].base,quar_[i].n+2*RZ)) verif_heap_error = "write to a released block";
	e = verif_heap_error; verif_heap_error = 0;
	pthread_mutex_unlock(&mu_);
	return e;
}
void *__wrap_malloc(size_t n) { return get(n,0); }
void *__wrap_calloc(size_t n, size_t s) { return get(n*s,1); }
void __wrap_free(void *p) { put(p); }
void *__wrap_realloc(void *p, size_t n) {
	void *q = get(n,0); size_t i, m = 0;
	if (p && q) {
		pthread_mutex_lock(&mu_);
		for (i=0;i<nlive_;i++) if (live_[i].base==(char *) p-RZ) m = live_[i].n;
		pthread_mutex_unlock(&mu_);
		memcpy(q,p,m<n?m:n); put(p);
	}
	return q;
}
