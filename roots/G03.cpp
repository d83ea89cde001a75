#include "ga.hpp"
#include <HeuristicFlow/PSO>
#include <HeuristicFlow/AOS>
namespace vroot {
#define OPT_(n) const auto &n##_opt(const n##_t *s) { return s->option(); }
#define REC_(n) const auto &n##_rec(const n##_t *s) { return s->record(); }
#define RUN_(n)                                                   \
  void n##_run(n##_t *s) { s->run(); }                            \
  size_t n##_gen(const n##_t *s) { return s->generation(); }
#define FAIL_(n) size_t n##_fails(const n##_t *s) { return s->failTimes(); }
RUN_(so) RUN_(se) RUN_(n2) RUN_(nx) RUN_(n3)
FAIL_(so) FAIL_(se) FAIL_(n2) FAIL_(nx) FAIL_(n3)
REC_(se)
typedef NSGA2<EA, 2, FITNESS_GREATER_BETTER, RECORD_FITNESS, void, n2_ini, n2_fit, n2_crs, n2_mut> nr_t;
RUN_(nr) FAIL_(nr) OPT_(nr) REC_(nr)
typedef NSGA3<EA, 3, RECORD_FITNESS, DOUBLE_LAYER, void> nd_t;
RUN_(nd) FAIL_(nd) OPT_(nd) REC_(nd)
void p_obj(const SV *, double *);
typedef PSO<SV, SQUARE_BOX, FITNESS_LESS_BETTER, RECORD_FITNESS, void, p_obj> pr_t;
typedef PSO<EA, SQUARE_BOX, FITNESS_GREATER_BETTER, DONT_RECORD_FITNESS> pn_t;
RUN_(pr) RUN_(pn) OPT_(pr) OPT_(pn) FAIL_(pr) FAIL_(pn) REC_(pr)
typedef AOS<ContinousBox<EA, BoxShape::SQUARE_BOX>, FITNESS_LESS_BETTER, RECORD_FITNESS> ar_t;
typedef AOS<ContinousBox<SV, BoxShape::RECTANGLE_BOX>, FITNESS_GREATER_BETTER> an_t;
RUN_(ar) RUN_(an) OPT_(ar) OPT_(an) REC_(ar)
#define ES_(n) size_t n##_fails(const n##_t *s) { return s->earlyStopCounter(); }
ES_(ar) ES_(an)
}  // namespace vroot
