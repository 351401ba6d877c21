/* Declarations of the external integrator (Cuba 4.2) as used by the library. */
#ifndef VERIF_CUBA_H
#define VERIF_CUBA_H
typedef int (*integrand_t)(const int *ndim, const double x[], const int *ncomp, double f[], void *userdata);
void Suave(const int ndim, const int ncomp, integrand_t integrand, void *userdata, const int nvec,
  const double epsrel, const double epsabs, const int flags, const int seed, const int mineval, const int maxeval,
  const int nnew, const int nmin, const double flatness, const char *statefile, void *spin,
  int *nregions, int *neval, int *fail, double integral[], double error[], double prob[]);
void Vegas(const int ndim, const int ncomp, integrand_t integrand, void *userdata, const int nvec,
  const double epsrel, const double epsabs, const int flags, const int seed, const int mineval, const int maxeval,
  const int nstart, const int nincrease, const int nbatch, const int gridno, const char *statefile, void *spin,
  int *neval, int *fail, double integral[], double error[], double prob[]);
void cubacores(const int n, const int pcore);
void cubaaccel(const int n, const int pcore);
#endif
