// For the native replay only: communicator and Global Arrays of a run on g_procs processes of which this is number g_me. What
// the other processes contribute to a sum of one integer is g_others, to the n-th sum of doubles g_rest[n].
#include <cstdlib>
#include <cmath>
#include <complex>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <fstream>
#include <iostream>
#include <boost/shared_ptr.hpp>
#include <boost/weak_ptr.hpp>
#include <boost/mpi.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/string.hpp>
#define private public
#define protected public
#include "net_native.hpp"
#include "gridpack/parser/dictionary.hpp"
#undef private
#undef protected
#include <ga.h>
#include "gridpack/parallel/communicator.hpp"
#include "gridpack/parallel/distributed.hpp"
#include "gridpack/configuration/no_print.hpp"
int g_procs = 1, g_me = 0, g_others = 0, g_ncall = 0;
double g_rest[16];
extern "C" {
int GA_Pgroup_nnodes(int) { return g_procs; }
int GA_Pgroup_nodeid(int) { return g_me; }
void GA_Pgroup_sync(int);
void GA_Pgroup_igop(int, int *x, int n, char *) { x[0] += g_others; }
}
namespace gridpack { namespace parallel {
class CommunicatorPrivate { };
Communicator::Communicator(void) : p_comm(*(boost::mpi::communicator*)calloc(1, sizeof(boost::mpi::communicator))) {}
Communicator::Communicator(const Communicator &old) : p_comm(old.p_comm) {}
Communicator::~Communicator(void) {}
void Communicator::sum(double *x, int n) const { for (int i = 0; i < n; i++) x[i] += g_rest[g_ncall++]; }
void Communicator::sum(int *x, int n) const { for (int i = 0; i < n; i++) x[i] += g_procs == 1 ? 0 : (i + g_others) % 3 == 1; }
int Communicator::getGroup(void) const { return 7; }
} }

using namespace gridpack::powerflow;
static double u(double a, double b) { return a + (b - a) * drand48(); }
void g_fill(GhostNet *net, std::vector<boost::shared_ptr<PFB> > &b, std::vector<boost::shared_ptr<PFL> > &l, int seed)
{
  srand48(seed);
  for (auto &x : b) {
    x->p_v = u(.9, 1.1); x->p_a = u(-1, 1);
    x->p_vMag_ptr = new double(x->p_v); x->p_vAng_ptr = new double(x->p_a);
    x->p_area = (int)u(-1, 3);
  }
  for (auto &x : l) {
    int n = x->p_ckt.size();
    x->p_ignore.resize(n); x->p_originalBus1Index = (int)u(1, 99); x->p_originalBus2Index = (int)u(100, 199);
    x->YMBranch::p_elems = n; x->YMBranch::p_tag = x->p_ckt; x->p_sbase = 100;
    x->p_bus1 = b[(int)u(0, b.size())]; x->p_bus2 = b[(int)u(0, b.size())];
    std::vector<double> *vs[] = {&x->YMBranch::p_resistance, &x->YMBranch::p_reactance, &x->YMBranch::p_charging, &x->YMBranch::p_phase_shift, &x->YMBranch::p_tap_ratio};
    for (auto v : vs) { v->resize(n); for (auto &y : *v) y = u(.05, 1); }
    x->YMBranch::p_xform.resize(n); x->YMBranch::p_switched.resize(n);
  }
  for (auto &d : net->p_branches) {
    int n = d.p_branch->p_ckt.size();
    d.p_data->addValue(BRANCH_NUM_ELEMENTS, n);
    for (int k = 0; k < n; k++) {
      if (u(0, 1) < .8) d.p_data->addValue(BRANCH_RATING_A, u(0, 1) < .2 ? 0. : std::exp(u(0, 8)), k);
      if (u(0, 1) < .6) d.p_data->addValue(BRANCH_RATING_B, u(0, 1) < .2 ? 0. : std::exp(u(0, 8)), k);
    }
  }
}
bool g_over(GhostNet *net, bool useb, int i, int k)
{
  auto &d = net->p_branches[i];
  double a = 0, b = 0;
  d.p_data->getValue(BRANCH_RATING_A, &a, k);
  bool hb = d.p_data->getValue(BRANCH_RATING_B, &b, k);
  double r = useb && hb ? b : a;
  return r > 0 && std::abs(d.p_branch->getComplexPower(d.p_branch->p_ckt[k])) > r;
}
int g_bad(GhostNet *net, bool useb, int area)
{
  int bad = 0;
  for (int i = 0; i < (int)net->p_branches.size(); i++) {
    auto &d = net->p_branches[i];
    PFB *x = dynamic_cast<PFB*>(d.p_branch->getBus1().get()), *y = dynamic_cast<PFB*>(d.p_branch->getBus2().get());
    if (!d.p_activeBranch || (area != -99 && x->p_area != area && y->p_area != area)) continue;
    for (int k = 0; k < (int)d.p_branch->p_ckt.size(); k++) if (!d.p_branch->p_ignore[k] && g_over(net, useb, i, k)) bad++;
  }
  return bad;
}
bool g_records(GhostNet *net, GhostFactory *fac, int n0, int area)
{
  int at = n0;
  for (int i = 0; i < (int)net->p_branches.size(); i++) {
    auto &d = net->p_branches[i];
    PFB *x = dynamic_cast<PFB*>(d.p_branch->getBus1().get()), *y = dynamic_cast<PFB*>(d.p_branch->getBus2().get());
    if (!d.p_activeBranch || (area != -99 && x->p_area != area && y->p_area != area)) continue;
    for (int k = 0; k < (int)d.p_branch->p_ckt.size(); k++) if (!d.p_branch->p_ignore[k] && g_over(net, fac->p_rateB, i, k)) {
      if (at >= (int)fac->p_violations.size()) return false;
      auto &r = fac->p_violations[at++];
      if (!r.line_violation || r.bus1 != d.p_branch->p_originalBus1Index || r.bus2 != d.p_branch->p_originalBus2Index || std::string(r.tag) != d.p_branch->p_ckt[k]) return false;
    }
  }
  return at == (int)fac->p_violations.size();
}

void g_fillbus(GhostNet *net, std::vector<boost::shared_ptr<PFB> > &b, std::vector<boost::shared_ptr<PFL> > *l, int seed)
{
  srand48(seed);
  static const char *tags[] = {"1 ", "2 ", "BL"};
  auto fill = [](std::vector<double> &v, int n) { v.resize(n); for (auto &y : v) y = u(-50, 50); };
  for (auto &x : b) {
    x->setOriginalIndex((int)u(1, 4)); x->p_v = u(.9, 1.1); x->p_a = u(-1, 1); x->p_voltage = u(.9, 1.1); x->p_angle = u(-1, 1);
    x->p_vMag_ptr = new double(x->p_v); x->p_vAng_ptr = new double(x->p_a); x->p_PV_ptr = new bool(u(0, 1) < .5);
    x->p_area = (int)u(-1, 3); x->p_zone = (int)u(-1, 3); x->p_sbase = 100; x->p_mode = 0;
    x->p_isPV = u(0, 1) < .7; x->p_saveisPV = u(0, 1) < .7; x->p_save2isPV = u(0, 1) < .5; x->p_qlim_fixed = u(0, 1) < .3;
    x->p_Pinj = u(-1, 1); x->p_Qinj = u(-1, 1); x->p_rtpr_scale = u(.5, 2); x->p_source = u(0, 1) < .3; x->p_sink = u(0, 1) < .3;
    x->p_ybusr = u(-5, 5); x->p_ybusi = u(-5, 5); x->p_P0 = u(-1, 1); x->p_Q0 = u(-1, 1);
    x->YMBus::p_ybusr = u(-5, 5); x->YMBus::p_ybusi = u(-5, 5); x->YMBus::p_shunt = u(0, 1) < .5; x->YMBus::p_shunt_gs = u(0, 1); x->YMBus::p_shunt_bs = u(0, 1); x->YMBus::p_isolated = u(0, 1) < .2;
    int n = (int)u(0, 3.99);
    x->p_ngen = n; x->p_gid.assign(tags, tags + std::min(n, 3)); x->p_ngen = n = x->p_gid.size();
    std::vector<double> *gv[] = {&x->p_pg, &x->p_qg, &x->p_pFac, &x->p_savePg, &x->p_qg_save, &x->p_qmax, &x->p_qmin, &x->p_qmax_orig, &x->p_qmin_orig, &x->p_pFac_orig, &x->p_vs, &x->p_pt, &x->p_pb};
    for (auto v : gv) fill(*v, n);
    for (int i = 0; i < n; i++) if (x->p_qmin[i] > x->p_qmax[i]) std::swap(x->p_qmin[i], x->p_qmax[i]);
    x->p_gstatus.resize(n); for (auto &y : x->p_gstatus) y = u(0, 1) < .7;
    n = (int)u(0, 3.99);
    x->p_lid.assign(tags, tags + std::min(n, 3)); x->p_nload = n = x->p_lid.size();
    std::vector<double> *lv[] = {&x->p_pl, &x->p_ql, &x->p_ip, &x->p_iq, &x->p_yp, &x->p_yq, &x->p_savePl, &x->p_saveQl};
    for (auto v : lv) fill(*v, n);
    x->p_lstatus.resize(n); for (auto &y : x->p_lstatus) y = u(0, 1) < .7;
  }
  if (l) {
    for (auto &x : *l) {
      int n = 1 + (int)u(0, 2);
      x->YMBranch::p_elems = n; x->YMBranch::p_tag.assign(tags, tags + n); x->p_ckt = x->YMBranch::p_tag;
      std::vector<double> *vs[] = {&x->YMBranch::p_resistance, &x->YMBranch::p_reactance, &x->YMBranch::p_charging, &x->YMBranch::p_phase_shift, &x->YMBranch::p_tap_ratio,
        &x->YMBranch::p_shunt_admt_g1, &x->YMBranch::p_shunt_admt_b1, &x->YMBranch::p_shunt_admt_g2, &x->YMBranch::p_shunt_admt_b2};
      for (auto v : vs) { v->resize(n); for (auto &y : *v) y = u(.05, 1); }
      x->YMBranch::p_xform.resize(n); x->YMBranch::p_shunt.resize(n); x->YMBranch::p_switched.resize(n);
      for (int k = 0; k < n; k++) { x->YMBranch::p_xform[k] = u(0, 1) < .5; x->YMBranch::p_shunt[k] = u(0, 1) < .5; x->YMBranch::p_switched[k] = u(0, 1) < .5; }
      x->YMBranch::p_branch_status.resize(n); for (int k = 0; k < n; k++) x->YMBranch::p_branch_status[k] = u(0, 1) < .7;
      x->YMBranch::p_active = true;
      x->YMBranch::p_ybusr_frwd = u(-5, 5); x->YMBranch::p_ybusi_frwd = u(-5, 5); x->YMBranch::p_ybusr_rvrs = u(-5, 5); x->YMBranch::p_ybusi_rvrs = u(-5, 5);
      int i = (int)u(0, b.size()), j = (i + 1 + (int)u(0, b.size() - 1)) % b.size();
      x->p_bus1 = b[i]; x->p_bus2 = b[j];
    }
    for (auto &d : net->p_branches) { auto x = d.p_branch; boost::dynamic_pointer_cast<PFB>(x->p_bus1.lock())->p_branches.push_back(x); boost::dynamic_pointer_cast<PFB>(x->p_bus2.lock())->p_branches.push_back(x); }
  }
}
GCopies g_copies(GhostNet *net)
{
  GCopies r;
  for (auto &d : net->p_buses) {
    boost::shared_ptr<PFB> x(new PFB(*d.p_bus));
    x->p_vMag_ptr = new double(*x->p_vMag_ptr); x->p_vAng_ptr = new double(*x->p_vAng_ptr); x->p_PV_ptr = new bool(*x->p_PV_ptr);
    r.push_back(x);
  }
  return r;
}
std::vector<double> g_state(PFB &b)
{
  std::vector<double> r = {b.p_v, b.p_a, b.p_ybusr, b.p_ybusi, b.YMBus::p_ybusr, b.YMBus::p_ybusi, b.p_P0, b.p_Q0, b.p_Pinj, b.p_Qinj, b.p_rtpr_scale, b.p_vmin, b.p_vmax,
    (double)b.p_isPV, (double)b.p_saveisPV, (double)b.p_save2isPV, (double)b.p_qlim_fixed, (double)b.YMBus::p_isolated, (double)b.p_source, (double)b.p_sink, (double)*b.p_PV_ptr, *b.p_vMag_ptr, *b.p_vAng_ptr};
  std::vector<double> *vs[] = {&b.p_pg, &b.p_qg, &b.p_qg_save, &b.p_qmax, &b.p_qmin, &b.p_savePg, &b.p_pFac, &b.p_pl, &b.p_ql, &b.p_savePl, &b.p_saveQl};
  for (auto v : vs) { r.push_back(v->size()); r.insert(r.end(), v->begin(), v->end()); }
  r.insert(r.end(), b.p_gstatus.begin(), b.p_gstatus.end()); r.insert(r.end(), b.p_lstatus.begin(), b.p_lstatus.end());
  return r;
}
std::vector<double> g_state(PFL &l)
{
  return {l.YMBranch::p_ybusr_frwd, l.YMBranch::p_ybusi_frwd, l.YMBranch::p_ybusr_rvrs, l.YMBranch::p_ybusi_rvrs, l.p_theta};
}
static bool same(const std::vector<double> &a, const std::vector<double> &b)
{
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]) || std::abs(a[i] - b[i]) <= 1e-9 * (1 + std::abs(a[i])))) return false;
  return true;
}
bool g_equal(GhostNet *net, GCopies &was)
{
  if (net->p_buses.size() != was.size()) return false;
  for (size_t i = 0; i < was.size(); i++) if (!same(g_state(*net->p_buses[i].p_bus), g_state(*was[i]))) return false;
  return true;
}
std::vector<char> g_owner, g_sent;
static GhostNet *g_xnet = 0;
extern "C" void GA_Pgroup_sync(int)
{
  if (!g_xnet) return;
  g_sent.clear();
  for (size_t i = 0; i < g_xnet->p_buses.size(); i++) {
    auto &d = g_xnet->p_buses[i];
    if (!d.p_activeBus) *d.p_bus->p_PV_ptr = g_owner[i];
    g_sent.push_back(*d.p_bus->p_PV_ptr);
  }
}
void g_exchange(GhostNet *net, int seed)
{
  srand48(seed);
  g_owner.clear(); g_sent.clear(); g_xnet = net;
  for (size_t i = 0; i < net->p_buses.size(); i++) g_owner.push_back(u(0, 1) < .5);
  static char buf[64]; static void *bufs[64];
  for (auto &p : bufs) p = buf;
  net->p_busXCBufSize = 0; net->p_busXCBuffers = bufs; net->p_busSndBuf = net->p_busRcvBuf = buf; net->p_numActiveBuses = net->p_numInactiveBuses = 0;
}
bool g_qlim(GhostNet *net, GCopies &was, int area, bool check, bool r)
{
  g_xnet = 0; net->p_busXCBuffers = 0; net->p_busSndBuf = net->p_busRcvBuf = 0;
  bool ok = true;
  for (size_t i = 0; i < was.size(); i++) {
    bool act = net->p_buses[i].p_activeBus;
    if (act) { if (!check) was[i]->clearQlim(); else if ((area == -99 || was[i]->p_area == area) && was[i]->chkQlim()) ok = false; }
    else { *was[i]->p_PV_ptr = g_owner[i]; was[i]->pushIsPV(); }
    if (g_sent.size() != was.size() || (bool)g_sent[i] != *was[i]->p_PV_ptr) return false;
  }
  return g_equal(net, was) && (!check || r == (ok && g_others == g_procs - 1));
}
bool g_ybus(GhostNet *net)
{
  GCopies was = g_copies(net);
  std::vector<std::vector<double> > l;
  for (auto &d : net->p_branches) l.push_back(g_state(*d.p_branch));
  for (auto &d : net->p_branches) d.p_branch->setYBus();
  for (auto &d : net->p_buses) d.p_bus->setYBus();
  bool ok = g_equal(net, was);
  for (size_t i = 0; i < l.size(); i++) ok = ok && same(l[i], g_state(*net->p_branches[i].p_branch));
  for (auto &d : net->p_buses) d.p_bus->p_branches.clear();
  return ok;
}
bool g_list(GhostNet *net, bool useb, const std::vector<int> &b1, const std::vector<int> &b2, const std::vector<std::string> &tags, const std::vector<bool> &got, bool r)
{
  if (b1.size() != b2.size() || b1.size() != tags.size()) return !r;
  if (got.size() != b1.size()) return false;
  bool all = true;
  for (int i = 0; i < (int)b1.size(); i++) {
    bool over = g_procs != 1 && (i + g_others) % 3 == 1;
    // as listed; the other way around if there is none
    bool fwd = false;
    for (auto &d : net->p_branches) if (d.p_originalBusIndex1 == b1[i] && d.p_originalBusIndex2 == b2[i]) fwd = true;
    for (int j = 0; j < (int)net->p_branches.size(); j++) {
      auto &d = net->p_branches[j];
      if (d.p_originalBusIndex1 != (fwd ? b1[i] : b2[i]) || d.p_originalBusIndex2 != (fwd ? b2[i] : b1[i])) continue;
      for (int k = 0; k < (int)d.p_branch->p_ckt.size(); k++) if (d.p_branch->p_ckt[k] == tags[i] && !d.p_branch->p_ignore[k] && g_over(net, useb, j, k)) over = true;
    }
    if (got[i] != !over) return false;
    all = all && !over;
  }
  return r == all;
}
