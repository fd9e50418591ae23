#include "C15.inc.hpp"
NLP(1000, 3, 0, 1, DENSE, 0, Box, IDE)
NLP(1000, 3, 1, 2, DENSE, 4, Box, IDE)
// Pinned findings: the default globalisation and the default quasi-Newton update on two small strictly convex programs.
namespace {
using namespace sq;
Func zero(int n) { Func z; z.Q = MD::Zero(n, n); z.F = MD::Zero(n, ND); z.s = VD::Zero(ND); z.q = VD::Zero(n); return z; }
/** min 0.25|x|^2 + 0.276936 x1 + ... started at its minimiser x = 0, with zero multipliers */
static void stalled(pbt::Src&, pbt::Ctx&) {
    using P = Nlp<3, 0, 1, DENSE>; using S = Sol<P, 0, Box<3, 1, DENSE>, Ide>; auto o = std::allocate_shared<S>(Eigen::aligned_allocator<S>());
    Data d; d.f = zero(3); d.f.quad = true; d.f.Q = MD::Identity(3, 3) * 0.5; d.f.q(1) = 0.276936; d.f.t = {{0, 0.05, 0, VD::Unit(3, 0)}, {1, 0.05, 0, VD::Unit(3, 0)}};
    Func e = zero(3); e.q(1) = -0.276936; d.g = {e}; o->lower_bound_g()(0) = o->upper_bound_g()(0) = 0;
    o->get_problem().d = d; o->parameters().setZero(); o->settings().eps_prim = o->settings().eps_dual = 1e-4; o->settings().max_iter = 300; auto& q = o->qp_settings(); q.eps_abs = q.eps_rel = 1e-8; q.max_iter = 20000;
    o->solve(VD::Zero(3), VD::Zero(4));
    CHECK(o->info().status.value == sqp_status_t::SOLVED && std::abs(o->dual_solution()(0) - 1) < 0.04, "min 0.25|x|^2 + a x1 + ... subject to a x1 = 0, started at the minimiser 0 with zero multipliers: " << (o->info().status.value == sqp_status_t::SOLVED ? "solved" : "not solved") << " after " << o->info().iter << " iterations, last step size " << o->last_alpha << ", multiplier " << o->dual_solution()(0) << " instead of 1");
}
/** two simple bounds active along the way: the multiplier change enters the BFGS secant pair */
static void secant(pbt::Src&, pbt::Ctx&) {
    using P = Nlp<3, 0, 1, DENSE>; using S = Sol<P, 0, Box<3, 1, DENSE>, Ide>; auto o = std::allocate_shared<S>(Eigen::aligned_allocator<S>());
    Data d; d.f = zero(3); d.f.quad = true; d.f.Q = MD::Identity(3, 3) * 0.5; d.f.q(0) = 0.2; VD a(3); a << -0.793691, 0.553303, 0; d.f.t = {{0, 1.76441, 0, a}};
    Func e = zero(3); e.q(2) = -0.250681; d.g = {e}; o->lower_bound_g()(0) = o->upper_bound_g()(0) = 0;
    o->get_problem().d = d; o->parameters().setZero(); o->lower_bound_x() << 0, -INF, -0.1; o->upper_bound_x() << INF, 0.222096, 0.1; o->settings().eps_prim = o->settings().eps_dual = 1e-4; o->settings().max_iter = 300; auto& q = o->qp_settings(); q.eps_abs = q.eps_rel = 1e-8; q.max_iter = 20000;
    VD x0(3), l0 = VD::Zero(4); x0 << -0.165281, 0, 0; l0(2) = -1.93807; o->solve(x0, l0);
    const double hm = MD(o->m_H).cwiseAbs().maxCoeff();
    CHECK(hm < 100 && std::abs(o->dual_solution()(1) + 0.2) < 0.004, "the Hessian of the cost is at most 2.3, the BFGS matrix reaches " << hm << "; multiplier of x0 >= 0 is " << o->dual_solution()(1) << " instead of -0.2");
}
}
static pbt::RegFinding f1("stalled_line_search", stalled);
static pbt::RegFinding f2("secant_pair", secant);
