/* Interface of the Cuba 4 integrators; the simulator provides the implementation. */
#ifndef SIM_CUBA_H
#define SIM_CUBA_H
#ifdef __cplusplus
extern "C" {
#endif
typedef int (*integrand_t)(const int *ndim, const double x[], const int *ncomp, double f[], void *userdata);
typedef void (*peakfinder_t)(const int *ndim, const double b[], int *n, double x[], void *userdata);
void Vegas(const int ndim, const int ncomp, integrand_t integrand, void *userdata, const int nvec, const double epsrel, const double epsabs, const int flags, const int seed, const int mineval, const int maxeval, const int nstart, const int nincrease, const int nbatch, const int gridno, const char *statefile, void *spin, int *neval, int *fail, double integral[], double error[], double prob[]);
void Suave(const int ndim, const int ncomp, integrand_t integrand, void *userdata, const int nvec, const double epsrel, const double epsabs, const int flags, const int seed, const int mineval, const int maxeval, const int nnew, const int nmin, const double flatness, const char *statefile, void *spin, int *nregions, int *neval, int *fail, double integral[], double error[], double prob[]);
void Cuhre(const int ndim, const int ncomp, integrand_t integrand, void *userdata, const int nvec, const double epsrel, const double epsabs, const int flags, const int mineval, const int maxeval, const int key, const char *statefile, void *spin, int *nregions, int *neval, int *fail, double integral[], double error[], double prob[]);
void cubacores(const int n, const int p);
void cubaaccel(const int n, const int p);
void cubawait(void *pspin);
#ifdef __cplusplus
}
#endif
#endif
