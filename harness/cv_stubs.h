/* Contracts of callees, in the form a caller sees: the precondition is asserted, the effect is assumed.
 * cvs_f stands for f when an obligation lists f among its stubs. */
#ifndef CV_STUBS_H
#define CV_STUBS_H
#include "cv.h"
#include <stdarg.h>
int cv_may_throw, cv_threw; void *cv_throw_class;
void cv_on_throw(void); /* the harness checks the state in which an error leaves the function */
/* raising an error does not return to the caller */
void cvs_throwErrorFmt(ObjClass *klass, const char *format, ...) {
    CV_CHECK("no-unexpected-error", cv_may_throw);
    CV_CHECK("error-class", cv_throw_class == NULL || cv_throw_class == (void *)klass);
    cv_threw = 1;
    cv_on_throw();
    CV_STOP();
}
void cvs_throwError(Value err) {
    CV_CHECK("no-unexpected-error", cv_may_throw);
    cv_threw = 1;
    cv_on_throw();
    CV_STOP();
}
/* reached only when one of clox's own internal assertions fails */
void cvs_diePrintCBacktrace(const char *fmt, ...) { CV_CHECK("no-internal-assertion-failure", 0); CV_STOP(); }
void cvs_die(const char *fmt, ...) { CV_CHECK("no-internal-assertion-failure", 0); CV_STOP(); }
#ifndef CV_OWN_ON_THROW
void cv_on_throw(void) {}
#endif
#endif
