#define M_PI __const_pi
extern double __const_pi;
#define NAN __const_nan
extern double __const_nan;
#define INFINITY __const_inf
extern double __const_inf;
double fabs(double); double sqrt(double); double cos(double); double sin(double); double tan(double); double pow(double,double); double exp(double); double log(double); double floor(double); double ceil(double); double acos(double); double asin(double); double atan(double); double atan2(double,double); double fmod(double,double); double fmin(double,double); double fmax(double,double); double round(double); double hypot(double,double); double cbrt(double); double log10(double);
float fabsf(float); float sqrtf(float); float cosf(float); float sinf(float); float powf(float,float); float floorf(float); float fmodf(float,float); float expf(float); float logf(float); float fminf(float,float); float fmaxf(float,float);
int isnan(double); int isfinite(double); int isinf(double);
