#include "fy_ghosts.hpp"
namespace gridpack { namespace dynamic_simulation {
void GhostExciter::see(double dt) { at_vt = vt; at_vc = vc; at_fc = fc; at_om = om; at_vs = vs; at_dt = dt; }
void GhostExciter::init(double mag, double ang, double ts) { inits = inits + 1; see(ts); at0_fc = fc; at_mag = mag; at_ang = ang; at_efd = efd; at_ir = ir; at_ii = ii; }
void GhostExciter::predictor(double t_inc, bool flag) { stages = stages + 1; see(t_inc); if (!hold) efd = nextefd; }
void GhostExciter::corrector(double t_inc, bool flag) { stages = stages + 1; see(t_inc); if (!hold) efd = nextefd; }
void GhostExciter::setFieldVoltage(double x) { efd = x; }
void GhostExciter::setFieldCurrent(double x) { fc = x; }
double GhostExciter::getFieldVoltage() { return efd; }
void GhostExciter::setVterminal(double x) { vt = x; }
void GhostExciter::setOmega(double x) { om = x; }
void GhostExciter::setVcomp(double x) { vc = x; }
void GhostExciter::setVstab(double x) { vs = x; }
void GhostExciter::setIri(double x, double y) { ir = x; ii = y; }
void GhostGovernor::init(double mag, double ang, double ts) { inits = inits + 1; at_dw = dw; at_pm = pm; at_dt = ts; }
void GhostGovernor::predictor(double t_inc, bool flag) { stages = stages + 1; at_dw = dw; at_dt = t_inc; if (!hold) pm = nextpm; }
void GhostGovernor::corrector(double t_inc, bool flag) { stages = stages + 1; at_dw = dw; at_dt = t_inc; if (!hold) pm = nextpm; }
void GhostGovernor::setMechanicalPower(double x) { pm = x; }
void GhostGovernor::setRotorSpeedDeviation(double x) { dw = x; }
double GhostGovernor::getMechanicalPower() { return pm; }
void GhostPss::init(double mag, double ang, double ts) { inits = inits + 1; at_om = om; at_dt = ts; }
void GhostPss::predictor(double t_inc, bool flag) { stages = stages + 1; at_om = om; at_dt = t_inc; if (!hold) out = nextout; }
void GhostPss::corrector(double t_inc, bool flag) { stages = stages + 1; at_om = om; at_dt = t_inc; if (!hold) out = nextout; }
double GhostPss::getVstab() { return out; }
void GhostPss::setOmega(double x) { om = x; }
} }
