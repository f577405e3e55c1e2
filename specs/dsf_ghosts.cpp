#include "dsf_ghosts.hpp"
namespace gridpack { namespace dynamic_simulation {
void GhostGen::init(double m, double a, double t) { n_init = n_init + 1; mag = m; ang = a; ts = t; }
ComplexType GhostGen::INorton() { return ComplexType(ir, ii); }
ComplexType GhostGen::NortonImpedence() { return ComplexType(yr, yi); }
void GhostGen::predictor_currentInjection(bool f) { n_pci = n_pci + 1; flag = f; }
void GhostGen::corrector_currentInjection(bool f) { n_cci = n_cci + 1; flag = f; }
void GhostGen::predictor(double t_inc, bool f) { n_pred = n_pred + 1; dt = t_inc; flag = f; }
void GhostGen::corrector(double t_inc, bool f) { n_corr = n_corr + 1; dt = t_inc; flag = f; }
void GhostGen::setVoltage(ComplexType v) { n_volt = n_volt + 1; vr = real(v); vi = imag(v); }
void GhostGen::setFreq(double x) { n_freq = n_freq + 1; fr = x; }
void GhostLoad::init(double m, double a, double t) { n_init = n_init + 1; mag = m; ang = a; ts = t; }
ComplexType GhostLoad::INorton() { return ComplexType(ir, ii); }
ComplexType GhostLoad::NortonImpedence() { return ComplexType(yr, yi); }
void GhostLoad::predictor_currentInjection(bool f) { n_pci = n_pci + 1; flag = f; }
void GhostLoad::corrector_currentInjection(bool f) { n_cci = n_cci + 1; flag = f; }
void GhostLoad::predictor(double t_inc, bool f) { n_pred = n_pred + 1; dt = t_inc; flag = f; }
void GhostLoad::corrector(double t_inc, bool f) { n_corr = n_corr + 1; dt = t_inc; flag = f; }
void GhostLoad::setVoltage(ComplexType v) { n_volt = n_volt + 1; vr = real(v); vi = imag(v); }
void GhostLoad::setFreq(double x) { n_freq = n_freq + 1; fr = x; }
double GhostGen::getAngle() { return angle; }
void GhostGen::setWideAreaFreqforPSS(double x) { n_wide = n_wide + 1; wide = x; }
void GhostLoad::dynamicload_post_process(double t_inc, bool f) { n_post = n_post + 1; dt = t_inc; flag = f; }
bool GhostLoad::changeLoad(double x) { n_change = n_change + 1; perc = x; return true; }
bool GhostGen::tripGenerator() { n_trip = n_trip + 1; return true; }
bool GhostGen::applyGeneratorParAdjustment(int c, double v) { n_par = n_par + 1; ptype = c; pval = v; return true; }
void GhostGen::getWatchValues(std::vector<double> &v) { v.clear(); v.push_back(wangle); v.push_back(wspeed); v.push_back(wp); v.push_back(wq); }
double GhostLoad::getFonline() { return online; }
} }
