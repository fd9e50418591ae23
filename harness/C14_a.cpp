#include "C14.inc.hpp"
NLP(1000, 3, 1, 2, DENSE, 0, Box, IDE)
NLP(1000, 3, 1, 2, DENSE, 1, Adm, IDE)
// Pinned finding: the step norms in the termination test are those of the shortened step.
namespace {
using namespace sq;
static void collapsed(pbt::Src&, pbt::Ctx&) {
    using P = Nlp<3, 1, 2, DENSE>; using S = Sol<P, 0, Box<3, 3, DENSE>, Ide>; auto o = std::allocate_shared<S>(Eigen::aligned_allocator<S>());
    Data d; Func z; z.Q = MD::Zero(3, 3); z.F = MD::Zero(3, ND); z.s = VD::Zero(ND); z.q = VD::Zero(3); d.f = z; d.f.q(0) = 1; d.f.quad = true; d.f.Q = MD::Identity(3, 3);
    Func e = z; e.q(0) = 1; d.c = {e}; d.g = {e, e};   // x0 = 0 twice
    o->get_problem().d = d; o->parameters().setZero(); o->upper_bound_g()(0) = 0;
    o->solve(VD::Zero(3), VD::Zero(6)); if (o->info().status.value != sqp_status_t::SOLVED) return;
    const VD x = o->primal_solution(), l = o->dual_solution(); VD g = x; g(0) += 1 + l(0) + l(1) + l(2); g += l.tail(3);
    CHECK(g.lpNorm<Eigen::Infinity>() <= 0.1, "min x0 + |x|^2/2 with x0 = 0 and the redundant constraint x0 <= 0 is reported solved with multipliers for which the gradient of the Lagrangian is " << g.lpNorm<Eigen::Infinity>() << " (last step size " << o->last_alpha << ")");
}
}
static pbt::RegFinding f1("collapsed_step", collapsed);
