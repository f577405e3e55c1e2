// For the native replay only.
#ifndef net_native_h
#define net_native_h
#include <vector>
#include "net_ghosts.hpp"
extern int g_procs, g_me, g_others, g_ncall;
extern double g_rest[];
typedef gridpack::powerflow::PFBus PFB;
typedef gridpack::powerflow::PFBranch PFL;
// random voltages, line data and ratings for the buses and branches of the network
void g_fill(gridpack::powerflow::GhostNet *net, std::vector<boost::shared_ptr<PFB> > &b, std::vector<boost::shared_ptr<PFL> > &l, int seed);
// is line k of branch i over its rating?
bool g_over(gridpack::powerflow::GhostNet *net, bool useb, int i, int k);
// how many lines that count are (of one area, or all: -99)
int g_bad(gridpack::powerflow::GhostNet *net, bool useb, int area);
// do the records from number n0 on name the overloaded lines, each once and in order?
bool g_records(gridpack::powerflow::GhostNet *net, gridpack::powerflow::GhostFactory *fac, int n0, int area);
// random state for every bus; with branches: which of them end at which bus
void g_fillbus(gridpack::powerflow::GhostNet *net, std::vector<boost::shared_ptr<PFB> > &b, std::vector<boost::shared_ptr<PFL> > *l, int seed);
// copies of the buses of the network, in its order
typedef std::vector<boost::shared_ptr<PFB> > GCopies;
GCopies g_copies(gridpack::powerflow::GhostNet *net);
// everything a call on the network can change of a bus or a branch
std::vector<double> g_state(PFB &b);
std::vector<double> g_state(PFL &l);
// is every bus what its copy is?
bool g_equal(gridpack::powerflow::GhostNet *net, GCopies &was);
inline bool g_in(PFB &b, int area, int zone) { return b.p_area == area && (zone <= 0 || b.p_zone == zone); }
// the exchange of the network: what the owner of ghost i decided is g_owner[i]; what the active buses have decided by then is g_sent
extern std::vector<char> g_owner, g_sent;
void g_exchange(gridpack::powerflow::GhostNet *net, int seed);
// area -99: all
bool g_qlim(gridpack::powerflow::GhostNet *net, GCopies &was, int area, bool check, bool r);
// is every listed line marked as passed unless it is overloaded here or elsewhere, and is r the conjunction?
bool g_list(gridpack::powerflow::GhostNet *net, bool useb, const std::vector<int> &b1, const std::vector<int> &b2, const std::vector<std::string> &tags, const std::vector<bool> &got, bool r);
bool g_ybus(gridpack::powerflow::GhostNet *net);
#endif
