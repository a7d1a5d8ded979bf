// Parameterized problems over histories: C13.
#include "simrt.hpp"
#include "parameterized_problem.hpp"
#include "workload.hpp"
#include <cmath>
#include <unistd.h>
using namespace mfem;
namespace sim {

typedef std::map<std::string, double> Par;
typedef std::vector<double> V;
static const double PI = std::acos(-1.0);

// What a problem is, as a function of its parameters (independent of the code under test).
struct Spec
{
   Par par; bool touched = false;        // touched: a parameter has been set since the problem was selected
   std::string name;
   double g(const std::string &k) const { return par.at(k); }
};
static const char *const PNAMES[] = {"poisson0", "poisson_component", "poisson_spiral", "channel_flow", "component_flow", "flow_past_array",
   "backward_facing_step", "lid_driven_cavity", "force_driven_corner", "periodic_flow_past_array", "linelast_disp", "linelast_disp_lcantilever",
   "linelast_disp_lattice", "linelast_force_cantilever", "linelast_cwtrain", "linelast_frame_wind", "advdiff_flow_past_array"};
static const int NPROB = 17;
static bool is_flow(const std::string &n)
{ return n == "channel_flow" || n == "component_flow" || n == "flow_past_array" || n == "backward_facing_step" || n == "lid_driven_cavity" || n == "force_driven_corner" || n == "periodic_flow_past_array" || n == "advdiff_flow_past_array"; }
static bool is_array(const std::string &n) { return n == "flow_past_array" || n == "advdiff_flow_past_array"; }
static bool is_cflow(const std::string &n) { return n == "component_flow" || is_array(n); }
static bool is_elast(const std::string &n) { return n.compare(0, 8, "linelast") == 0; }

static Spec select(const std::string &n)
{
   Spec s; s.name = n; Par &p = s.par;
   static const char *xc[] = {"_x", "_y", "_z"}, *uc[] = {"_u", "_v", "_w"};
   if (n == "poisson0") p = {{"k", 1}, {"offset", 0}};
   else if (n == "poisson_component") p = {{"k0", 0}, {"k1", 0}, {"k2", 0}, {"offset", 0.1}, {"bdr_k0", 0}, {"bdr_k1", 0}, {"bdr_k2", 0}, {"bdr_offset", 0}, {"bdr_idx", -1}};
   else if (n == "poisson_spiral") p = {{"L", 1}, {"Lw", 0.2}, {"k", 1}, {"s", 0.6}};
   else if (n == "channel_flow") p = {{"nu", 1}, {"L", 1}, {"U", 1}, {"x0", 0.5}};
   else if (is_cflow(n))
   {
      p["nu"] = 1;
      for (int i = 0; i < 3; i++)
      {
         p[std::string("u0") + xc[i]] = 0; p[std::string("du") + xc[i]] = 1; p[std::string("offsets") + xc[i]] = 0;
         for (int j = 0; j < 3; j++) p[std::string("k") + uc[i] + xc[j]] = 1;
      }
      if (n == "advdiff_flow_past_array") { p["q0"] = 1; p["dq"] = 0.1; p["qoffset"] = 0; for (int i = 0; i < 3; i++) p[std::string("qk") + xc[i]] = 0; }
   }
   else if (n == "backward_facing_step") { p = {{"nu", 1}, {"y0", 0}, {"y1", 1}, {"u0", 1}}; for (int m = 0; m < 2; m++) for (const char *k : {"amp", "ky", "freq", "t_offset"}) p[k + std::to_string(m)] = 0; }
   else if (n == "lid_driven_cavity") p = {{"nu", 1}, {"u0", 1}, {"L", 1}};
   else if (n == "force_driven_corner" || n == "periodic_flow_past_array") p = {{"nu", 1}, {"fx", 0}, {"fy", 0}, {"fz", 0}};
   else if (n == "linelast_disp" || n == "linelast_disp_lcantilever" || n == "linelast_disp_lattice") p = {{"rdisp_f", 1}, {"lambda", 1}, {"mu", 1}};
   else if (n == "linelast_force_cantilever") p = {{"rforce_f", 1}, {"lambda", 1}, {"mu", 1}};
   else if (n == "linelast_frame_wind") p = {{"lambda", 3846153846.0}, {"mu", 769230769.0}, {"qwind_f", 500}, {"density", 78.5}, {"g", 9.81}};
   else if (n == "linelast_cwtrain")
   {
      for (const char *k : {"l_ux", "l_uy", "r_fx", "r_fy", "u_fx", "u_fy", "d_fx", "d_fy", "b_fx", "b_fy", "lx", "ly", "rx", "ry", "dx", "dy", "ux", "uy", "bx", "by"}) p[k] = 0;
      p["lambda"] = 1; p["mu"] = 1;
      for (const char *k : {"xu", "xf", "yu", "yf", "bxf", "byf"}) { p[std::string(k) + "_amp"] = 1; p[std::string(k) + "_freq"] = 1; p[std::string(k) + "_offset"] = 0; }
   }
   return s;
}

// boundary conditions: attribute, type (0 zero, 1 dirichlet, 2 neumann)
static void bcs(const Spec &s, std::vector<int> &attr, std::vector<int> &type)
{
   const std::string &n = s.name;
   attr = {1, 2, 3, 4, 5};
   if (n == "poisson0" || n == "poisson_spiral") { attr = {-1}; type = {0}; }
   else if (n == "poisson_component") { double b = s.g("bdr_idx"); attr = {s.touched && b >= 0 ? 1 + (int)std::floor(b) : -1}; type = {1}; }
   else if (n == "channel_flow") type = {0, 2, 0, 1, 0};
   else if (n == "component_flow") type = {1, 1, 1, 1, 0};
   else if (is_array(n))
   {
      type = {1, 1, 1, 1, n == "flow_past_array" ? 0 : 2};
      if (s.touched)
      {
         bool px = s.g("u0_x") > 0, py = s.g("u0_y") > 0;
         type[3] = px ? 1 : 2; type[1] = px ? 2 : 1; type[0] = py ? 1 : 2; type[2] = py ? 2 : 1;
      }
   }
   else if (n == "backward_facing_step") { attr = {1, 2, 3}; type = {1, 0, 2}; }
   else if (n == "lid_driven_cavity") type = {1, 0, 1, 0, 0};
   else if (n == "periodic_flow_past_array") { attr = {5}; type = {0}; }
   else if (n == "force_driven_corner") type = {0, 0, 2, 2, 0};
   else if (n == "linelast_disp") { attr = {1, 2, 3}; type = {1, 1, 0}; }
   else if (n == "linelast_disp_lcantilever") { attr = {1, 2, 3}; type = {1, 1, 2}; }
   else if (n == "linelast_disp_lattice") type = {2, 1, 2, 1, 2};
   else if (n == "linelast_force_cantilever" || n == "linelast_cwtrain") type = {2, 2, 2, 1, 2};
   else if (n == "linelast_frame_wind") { type = {2, 2, 2, 1, 2}; attr[4] = 3; }
}
static double pert(const Spec &s, const std::string &k, double x) { return s.g(k + "_amp") * std::sin(PI * s.g(k + "_freq") * (x / 3.0 + 2 * s.g(k + "_offset"))); }

// scalar right-hand side; false if there is none
static bool srhs(const Spec &s, const V &x, double &r)
{
   const std::string &n = s.name; double t = 0;
   if (n == "poisson0") { for (double v : x) t += v; r = std::sin(2 * PI * (t * s.g("k") + s.g("offset"))); return true; }
   if (n == "poisson_component") { for (size_t d = 0; d < x.size(); d++) t += s.g("k" + std::to_string(d)) * x[d]; r = std::sin(2 * PI * (t + s.g("offset"))); return true; }
   if (n == "poisson_spiral")
   {
      double L = s.g("L"), q = 0; for (double v : x) q += (v - 0.5 * L) * (v - 0.5 * L);
      q = std::sqrt(q);
      double th = std::atan2(x[1] - 0.5 * L, x[0] - 0.5 * L); if (th < 0) th += 2 * PI;
      double slope = s.g("s") * L / (2 * PI * 2), tmp = q - slope * (th - 2 * PI), dist = std::fabs(tmp);
      for (int k = 0; k < 2; k++) { tmp -= 2 * PI * slope; dist = std::min(dist, std::fabs(tmp)); }
      r = std::exp(-0.5 * dist * dist / s.g("Lw") / s.g("Lw")) * std::cos(2 * PI * s.g("k") * dist);
      return true;
   }
   return false;
}
static bool sbdr(const Spec &s, int b, const V &x, double &r)
{
   double t = 0;
   if (s.name == "poisson_component") { for (size_t d = 0; d < x.size(); d++) t += s.g("bdr_k" + std::to_string(d)) * x[d]; r = std::sin(2 * PI * (t + s.g("bdr_offset"))); return true; }
   if (s.name == "advdiff_flow_past_array") { static const char *c[] = {"qk_x", "qk_y", "qk_z"}; for (size_t d = 0; d < x.size(); d++) t += s.g(c[d]) * x[d]; r = s.g("q0") + s.g("dq") * std::sin(2 * PI * (t + s.g("qoffset"))); return true; }
   return false;
}
static bool vrhs(const Spec &s, const V &x, V &y)
{
   y.assign(x.size(), 0.0);
   if (s.name == "periodic_flow_past_array" || s.name == "force_driven_corner") { static const char *c[] = {"fx", "fy", "fz"}; y.assign(3, 0.0); for (size_t d = 0; d < 3; d++) y[d] = s.g(c[d]); return true; }
   if (s.name == "linelast_frame_wind") { y.back() = -s.g("density") * s.g("g"); return true; }
   return false;
}
static void init_disp(const Spec &s, const V &x, V &y, double f) { y.assign(x.size(), 0.0); y.back() = -0.2 * x[0] * f; }
static bool vbdr(const Spec &s, int b, const V &x, double t, V &y)
{
   const std::string &n = s.name;
   y.assign(x.size(), 0.0);
   if (n == "channel_flow") { double yc = (x[1] - s.g("x0")) / s.g("L"); y[0] = s.g("U") * (1 - 4 * yc * yc); return true; }
   if (is_cflow(n))
   {
      static const char *xc[] = {"_x", "_y", "_z"}, *uc[] = {"_u", "_v", "_w"};
      for (size_t i = 0; i < x.size(); i++)
      {
         double k = 0; for (size_t j = 0; j < x.size(); j++) k += s.g(std::string("k") + uc[i] + xc[j]) * x[j];
         k -= s.g(std::string("offsets") + xc[i]);
         y[i] = s.g(std::string("u0") + xc[i]) + s.g(std::string("du") + xc[i]) * std::sin(2 * PI * k);
      }
      return true;      // complementary flux is set to zero by the harness, as the flow solver does
   }
   if (n == "backward_facing_step")
   {
      double y0 = s.g("y0"), y1 = s.g("y1"), gap = y1 - y0;
      y[0] = -s.g("u0") * 4 / gap / gap * (y0 - x[1]) * (y1 - x[1]);
      for (int m = 0; m < 2; m++)
      { std::string q = std::to_string(m); y[1] += s.g("amp" + q) * std::sin(PI * s.g("ky" + q) * (x[1] - y0) / gap) * std::sin(2 * PI * (s.g("freq" + q) * t + s.g("t_offset" + q))); }
      return true;
   }
   if (n == "lid_driven_cavity") { double L = s.g("L"); y[0] = 4 / L / L * s.g("u0") * x[0] * (L - x[0]); return true; }
   if (n == "linelast_disp") { if (b == 2) return false; init_disp(s, x, y, s.g("rdisp_f")); return true; }
   if (n == "linelast_disp_lcantilever") { if (b == 2) return false; y.back() = -0.2 * (x.back() - 5) * s.g("rdisp_f"); return true; }
   if (n == "linelast_disp_lattice") { if (b != 1 && b != 3) return false; init_disp(s, x, y, s.g("rdisp_f")); return true; }
   if (n == "linelast_force_cantilever")
   {
      if (b == 1) { y.back() = -1e-2 * s.g("rforce_f"); return true; }
      if (b == 3) { init_disp(s, x, y, 0.0); return true; }   // clamped: no displacement parameter in this problem
      return false;
   }
   if (n == "linelast_frame_wind") { if (b == 0) { y[0] = s.g("qwind_f"); return true; } if (b == 3) return true; return false; }
   if (n == "linelast_cwtrain")
   {
      static const char *sel[] = {"d", "r", "u", "l"}, *f[] = {"d_f", "r_f", "u_f", "l_u"}, *px[] = {"xf", "xf", "xf", "xu"}, *py[] = {"yf", "yf", "yf", "yu"};
      if (b > 3) return false;
      if (s.g(std::string(sel[b]) + "x") >= 0.5) y[0] = s.g(std::string(f[b]) + "x") + pert(s, px[b], x[0]);
      if (s.g(std::string(sel[b]) + "y") >= 0.5) y[1] = s.g(std::string(f[b]) + "y") + pert(s, py[b], x[1]);
      return true;
   }
   return false;
}
static bool gvec(const Spec &s, const V &x, V &y)
{
   y.assign(x.size(), 0.0);
   if (s.name == "linelast_disp") { init_disp(s, x, y, s.g("rdisp_f")); return true; }
   if (s.name == "linelast_cwtrain")
   {
      if (s.g("bx") >= 0.5) y[0] = s.g("b_fx") + pert(s, "bxf", x[0]);
      if (s.g("by") >= 0.5) y[1] = s.g("b_fy") + pert(s, "byf", x[1]);
      return true;
   }
   return false;
}
static bool ic(const Spec &s, int v, const V &x, V &y)
{
   if (s.name != "backward_facing_step") return false;
   if (v == 1) { y.assign(1, 0.0); return true; }
   double y0 = s.g("y0"), y1 = s.g("y1"), gap = y1 - y0;
   y.assign(x.size(), 0.0);
   y[0] = x[1] < y0 ? 0.0 : -s.g("u0") * 4 / gap / gap * (y0 - x[1]) * (y1 - x[1]);
   return true;
}

// ---- the record a node makes of a problem, and its expectation ----------------------
struct Pt { V x; double t, fill; };
static void put_vec(Out &o, function_factory::GeneralVectorFunction *f, const Pt &p, int vdim)
{
   o.i(f ? 1 : 0); if (!f) return;
   Vector x(p.x.size()), y(vdim); for (size_t k = 0; k < p.x.size(); k++) x[k] = p.x[k];
   y = p.fill;                       // scratch vectors of the solvers hold earlier values
   f(x, p.t, y);
   o.i(y.Size()); for (int k = 0; k < y.Size(); k++) o.d(y[k]);
}
static void put_sc(Out &o, function_factory::GeneralScalarFunction *f, const Pt &p)
{
   o.i(f ? 1 : 0); if (!f) return;
   Vector x(p.x.size()); for (size_t k = 0; k < p.x.size(); k++) x[k] = p.x[k];
   o.d(f(x, p.t));
}
static void record(ParameterizedProblem *q, const std::string &name, const std::vector<Pt> &pts, Out &o)
{
   o.s(q->GetProblemName());
   o.i(q->battr.Size()); for (int k = 0; k < q->battr.Size(); k++) o.i(q->battr[k]);
   o.i(q->bdr_type.Size()); for (int k = 0; k < q->bdr_type.Size(); k++) o.i((int)q->bdr_type[k]);
   bool flow = is_flow(name);
   o.d(flow ? function_factory::flow_problem::nu : 0.0);
   int nb = q->battr.Size();
   for (auto &p : pts)
   {
      int dim = p.x.size();
      if (flow) { function_factory::flow_problem::del_u = 0.0; function_factory::flow_problem::x0.SetSize(dim); function_factory::flow_problem::x0 = 0.0; }
      put_sc(o, q->scalar_rhs_ptr, p);
      put_vec(o, q->vector_rhs_ptr, p, dim);
      for (int b = 0; b < nb; b++) put_sc(o, b < q->scalar_bdr_ptr.Size() ? q->scalar_bdr_ptr[b] : nullptr, p);
      for (int b = 0; b < nb; b++) put_vec(o, b < q->vector_bdr_ptr.Size() ? q->vector_bdr_ptr[b] : nullptr, p, dim);
      for (int v = 0; v < 2; v++) put_vec(o, v < q->ic_ptr.Size() ? q->ic_ptr[v] : nullptr, p, v ? 1 : dim);
      for (int v = 0; v < 2; v++) put_sc(o, v < q->general_scalar_ptr.Size() ? q->general_scalar_ptr[v] : nullptr, p);
      put_vec(o, q->general_vector_ptr.Size() ? q->general_vector_ptr[0] : nullptr, p, dim);
   }
   if (name == "advdiff_flow_past_array")
   {
      FlowProblem *f = function_factory::advdiff_problem::flow_problem;
      o.i(function_factory::advdiff_problem::analytic_flow);
      o.i(f != nullptr && (void *)f != (void *)q);
      for (int k = 0; k < 5; k++) o.i((int)f->bdr_type[k]);
      for (auto &p : pts) for (int b = 0; b < 4; b++)
      { int dim = p.x.size(); function_factory::flow_problem::x0.SetSize(dim); function_factory::flow_problem::x0 = 0.0; put_vec(o, f->vector_bdr_ptr[b], p, dim); }
   }
}
static bool near(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * std::max(1.0, std::max(std::fabs(a), std::fabs(b))) || (std::isnan(a) && std::isnan(b)); }
static void vcheck(Ctx &c, In &in, bool has, const V &y, const std::string &what)
{
   bool h = in.i();
   if (h != has) c.violation("function-set", "%s is %s", what.c_str(), h ? "set although the problem has none" : "missing");
   if (!h) return;
   int n = in.i(); V got; for (int k = 0; k < n; k++) got.push_back(in.d());
   if (n < (int)y.size() && what.find("force") == std::string::npos) c.violation("function-size", "%s has %d components", what.c_str(), n);
   for (int k = 0; k < std::min<int>(n, y.size()); k++) if (!near(got[k], y[k])) c.violation("function-value", "%s: component %d is %.12g, expected %.12g", what.c_str(), k, got[k], y[k]);
}
static void scheck(Ctx &c, In &in, bool has, double y, const std::string &what)
{
   bool h = in.i();
   if (h != has) c.violation("function-set", "%s is %s", what.c_str(), h ? "set although the problem has none" : "missing");
   if (!h) return;
   double v = in.d();
   if (!near(v, y)) c.violation("function-value", "%s is %.12g, expected %.12g", what.c_str(), v, y);
}
static void verify(Ctx &c, const Spec &s, const std::vector<Pt> &pts, const std::string &rec, const std::string &hist)
{
   In in(rec);
   std::string nm = in.s(), w = s.name + " after " + hist + ": ";
   if (nm != s.name) c.violation("name", "%s calls itself %s", s.name.c_str(), nm.c_str());
   std::vector<int> attr, type, a, t; bcs(s, attr, type);
   int n = in.i(); for (int k = 0; k < n; k++) a.push_back(in.i());
   n = in.i(); for (int k = 0; k < n; k++) t.push_back(in.i());
   if (a != attr) c.violation("boundary-attributes", "%sthe boundary attributes are wrong", w.c_str());
   if (t != type) { std::string x; for (int q : t) x += fmt("%d", q); c.violation("boundary-types", "%sthe boundary types are %s", w.c_str(), x.c_str()); }
   double nu = in.d();
   if (is_flow(s.name) && !near(nu, s.g("nu"))) c.violation("viscosity", "%sthe viscosity is %.12g, expected %.12g", w.c_str(), nu, s.g("nu"));
   bool el = is_elast(s.name);
   for (auto &p : pts)
   {
      double r = 0; V y; bool h;
      h = srhs(s, p.x, r); scheck(c, in, h, r, w + "right-hand side");
      h = vrhs(s, p.x, y); vcheck(c, in, h, y, w + "force");
      for (size_t b = 0; b < attr.size(); b++) { h = sbdr(s, b, p.x, r); scheck(c, in, h, r, w + fmt("boundary function %zu", b)); }
      for (size_t b = 0; b < attr.size(); b++) { h = vbdr(s, b, p.x, p.t, y); vcheck(c, in, h, y, w + fmt("boundary function %zu", b)); }
      for (int v = 0; v < 2; v++) { h = ic(s, v, p.x, y); vcheck(c, in, h, y, w + fmt("initial condition %d", v)); }
      for (int v = 0; v < 2; v++) scheck(c, in, el, el ? s.g(v ? "mu" : "lambda") : 0.0, w + (v ? "mu" : "lambda"));
      h = gvec(s, p.x, y); vcheck(c, in, h, y, w + "initial displacement");
   }
   if (s.name == "advdiff_flow_past_array")
   {
      if (in.i()) c.violation("flow-problem", "%sthe flow counts as analytic", w.c_str());
      if (!in.i()) c.violation("flow-problem", "%sno flow problem", w.c_str());
      Spec f = s; f.name = "flow_past_array"; bcs(f, attr, type);
      for (int k = 0; k < 5; k++) { int q = in.i(); if (q != type[k]) c.violation("flow-problem", "%sboundary %d of the flow problem has type %d", w.c_str(), k, q); }
      for (auto &p : pts) for (int b = 0; b < 4; b++) { V y; bool h = vbdr(f, b, p.x, p.t, y); vcheck(c, in, h, y, w + "flow boundary function"); }
   }
}

enum { H_SELECT, H_NAME, H_INDEX, H_SINGLE, H_CHECK, H_CLEAR };
struct HOp { int op; std::string name; std::vector<std::pair<std::string, double> > set; bool after; std::vector<Pt> pts; };

static double pvalue(Rng &g, const std::string &k, const std::string &prob)
{
   if (k == "bdr_idx") return (double)((int)g.below(5) - 1) + (g.chance(1, 3) ? 0.5 * (g.below(2)) : 0);
   if (k == "y1") return 1.5 + g.unit();
   if (k == "y0") return -g.unit();
   if (k == "L" || k == "Lw") return 0.2 + g.unit();
   if (g.chance(1, 10)) return 0.0;
   return (g.unit() * 2 - 1) * 3;
}
static void c13(Ctx &c)
{
   Rng g = c.stream();
   int len = 1 + c.choose(c.thorough ? 18 : 10);
   std::vector<HOp> ops; Spec cur; std::vector<Spec> at_check; std::vector<std::string> hist_at; std::string hist;
   // few different problems in one history: what one leaves behind shows when it comes again
   std::vector<std::string> pool; int npool = 1 + c.choose(4);
   for (int k = 0; k < npool; k++) pool.push_back(PNAMES[c.choose(NPROB)]);
   auto sel = [&]()
   {
      HOp o; o.op = H_SELECT; o.name = pool[c.choose(npool)]; o.after = c.flip(1, 3);
      cur = select(o.name); ops.push_back(o); hist += (hist.empty() ? "" : ",") + o.name;
   };
   auto points = [&]()
   {
      std::vector<Pt> p; int n = 1 + g.below(3);
      for (int k = 0; k < n; k++)
      {
         Pt q; int dim = 2; if ((is_cflow(cur.name) || cur.name == "poisson0" || cur.name == "poisson_component") && g.chance(1, 4)) dim = 3;
         for (int d = 0; d < dim; d++) q.x.push_back(g.unit() * 2 - 0.5);
         q.t = g.unit() * 3; q.fill = g.chance(1, 2) ? 0.0 : g.unit() * 100; p.push_back(q);
      }
      return p;
   };
   auto check = [&]() { HOp o; o.op = H_CHECK; o.name = cur.name; o.pts = points(); ops.push_back(o); at_check.push_back(cur); hist_at.push_back(hist); };
   sel();
   for (int k = 0; k < len; k++)
   {
      int w = c.choose(7);
      if (w == 6) w = 0;
      if (w == 0) { sel(); if (g.chance(1, 2)) check(); continue; }
      if (w == 5) { check(); continue; }
      HOp o; o.op = w == 1 ? H_NAME : w == 2 ? H_INDEX : w == 3 ? H_SINGLE : H_NAME; o.name = cur.name;
      std::vector<std::string> keys; for (auto &x : cur.par) keys.push_back(x.first);
      int n = o.op == H_NAME ? 1 : 1 + g.below(g.chance(1, 3) ? keys.size() : std::min<size_t>(keys.size(), 6));
      for (size_t q = keys.size(); q > 1; q--) std::swap(keys[q - 1], keys[g.below(q)]);
      for (int q = 0; q < n; q++)
      {
         double v = g.chance(1, 6) ? select(cur.name).par[keys[q]] : pvalue(g, keys[q], cur.name);
         o.set.push_back({keys[q], v}); cur.par[keys[q]] = v;
      }
      cur.touched = true;
      ops.push_back(o);
      if (g.chance(1, 4)) check();
   }
   check();
   std::string d = c.disk("d");
   int bad = c.choose(8);  // 1 unknown parameter name, 2 unknown problem, 3 single run without entry, 4 unknown name in single run
   auto perform = [&](const std::vector<HOp> &L, Out &o)
   {
      ParameterizedProblem *p = nullptr;
      for (auto &q : L) switch (q.op)
      {
         case H_SELECT:
         {
            config.SetOption<std::string>("parameterized_problem/name", q.name);
            ParameterizedProblem *old = p;
            if (!q.after) { delete old; old = nullptr; }
            p = InitParameterizedProblem();
            NODE_REQUIRE(p);
            delete old;
            break;
         }
         case H_NAME: p->SetParams(q.set[0].first, q.set[0].second); break;
         case H_INDEX:
         {
            Array<int> idx; Vector val(q.set.size());
            for (size_t k = 0; k < q.set.size(); k++) { idx.Append(p->GetParamIndex(q.set[k].first)); val[k] = q.set[k].second; }
            p->SetParams(idx, val);
            break;
         }
         case H_SINGLE:
         {
            config.FindNode("single_run/" + q.name, true) = YAML::Node(YAML::NodeType::Map);
            for (auto &x : q.set) config.SetOption<double>("single_run/" + q.name + "/" + x.first, x.second);
            p->SetSingleRun();
            break;
         }
         case H_CHECK: { Out r; record(p, q.name, q.pts, r); o.s(r.b); break; }
      }
      delete p;
   };
   NodeOpt no; draw_benign(c, no.plan); no.plan.benign = 0;
   NodeOut r = run_node(c, "history", d, no, [&](Out &o) { config.dict_ = YAML::Load("main: {mode: single_run}"); perform(ops, o); });
   c.note("history %s, %zu operations", hist.c_str(), ops.size());
   if (!r.ok()) c.violation("fails", "selecting problems and setting their parameters (%s) ended with %s (%s): %s", hist.c_str(), r.name(), r.how.c_str(), r.console.substr(0, 250).c_str());
   In in(r.out); size_t q = 0;
   for (auto &o : ops) if (o.op == H_CHECK) { std::string rec = in.s(); verify(c, at_check[q], o.pts, rec, hist_at[q]); q++; }
   // the same in a fresh process, only the last problem with its final values, must be the same bit for bit
   {
      std::vector<HOp> L; HOp s; s.op = H_SELECT; s.name = cur.name; s.after = false; L.push_back(s);
      if (cur.touched) for (auto &x : cur.par) { HOp h; h.op = H_NAME; h.name = cur.name; h.set.push_back(x); L.push_back(h); }
      HOp e = ops.back(); L.push_back(e);
      NodeOpt n2; draw_benign(c, n2.plan); n2.plan.benign = 0;
      NodeOut f = run_node(c, "fresh", d, n2, [&](Out &o) { config.dict_ = YAML::Load("main: {mode: single_run}"); perform(L, o); });
      if (!f.ok()) c.violation("fails", "selecting %s and setting its parameters ended with %s (%s): %s", cur.name.c_str(), f.name(), f.how.c_str(), f.console.substr(0, 250).c_str());
      In a(r.out), b(f.out); std::string last; while (!a.end() && !a.bad) last = a.s();
      if (last != b.s()) c.violation("history-matters", "%s behaves differently after %s than in a fresh process", cur.name.c_str(), hist.c_str());
   }
   if (bad >= 1 && bad <= 4)
   {
      std::string pn = cur.name;
      NodeOut x = run_node(c, "illegal", d, NodeOpt(), [&](Out &)
      {
         config.dict_ = YAML::Load("parameterized_problem: {name: " + (bad == 2 ? "nosuch" : pn) + "}\nsingle_run: {" + (bad == 4 ? pn + ": {nosuch_parameter: 1}" : std::string("other: {k: 1}")) + "}");
         ParameterizedProblem *p = InitParameterizedProblem();
         if (bad == 1) p->SetParams("nosuch_parameter", 1.0);
         if (bad >= 3) p->SetSingleRun();
      });
      if (x.ok()) c.violation("unknown-accepted", "%s is accepted by %s", bad == 1 || bad == 4 ? "an unknown parameter name" : bad == 2 ? "an unknown problem name" : "a single run without its entry", pn.c_str());
   }
   c.cov(hist); for (auto &o : ops) { c.cov(o.op); for (auto &x : o.set) c.cov(x.first + fmt("%g", x.second)); }
   c.counters["problem:" + cur.name]++;
   c.nontrivial = true;
}
static Reg r13("C13", c13, "one run = a random history of problem selections (17 problems) and parameter settings by name, by index and by single-run configuration in one process with dirty memory, every checked problem compared with an independent definition at random points and times, and bit for bit with a fresh process; distinct = different histories and values");

} // namespace sim
