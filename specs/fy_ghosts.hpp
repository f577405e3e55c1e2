// Stand-ins for the controllers of a machine: a ghost delivers arbitrary outputs and remembers what it was given
// when a stage (or init) ran. A machine is checked against the ghost, that is against the controllers' interface.
#ifndef fy_ghosts_h
#define fy_ghosts_h
#include "base_exciter_model.hpp"
#include "base_governor_model.hpp"
#include "base_pss_model.hpp"
namespace gridpack { namespace dynamic_simulation {
class GhostExciter : public BaseExciterModel {
  public:
    double efd, nextefd;
    double vt, vc, fc, om, vs, ir, ii;
    double at0_fc, at_vt, at_vc, at_fc, at_om, at_vs, at_dt, at_mag, at_ang, at_efd, at_ir, at_ii;
    int stages, inits;
    bool hold;
    GhostExciter() { efd = nextefd = vt = vc = fc = om = vs = ir = ii = 0; stages = inits = 0; }
    virtual ~GhostExciter() {}
    void see(double dt);
    void init(double mag, double ang, double ts);
    void predictor(double t_inc, bool flag);
    void corrector(double t_inc, bool flag);
    void setFieldVoltage(double x);
    void setFieldCurrent(double x);
    double getFieldVoltage();
    void setVterminal(double x);
    void setOmega(double x);
    void setVcomp(double x);
    void setVstab(double x);
    void setIri(double x, double y);
};
class GhostGovernor : public BaseGovernorModel {
  public:
    double pm, nextpm, dw;
    double at_dw, at_dt, at_pm;
    int stages, inits;
    bool hold;
    GhostGovernor() { pm = nextpm = dw = 0; stages = inits = 0; }
    virtual ~GhostGovernor() {}
    void init(double mag, double ang, double ts);
    void predictor(double t_inc, bool flag);
    void corrector(double t_inc, bool flag);
    void setMechanicalPower(double x);
    void setRotorSpeedDeviation(double x);
    double getMechanicalPower();
};
class GhostPss : public BasePssModel {
  public:
    double out, nextout, om, at_om, at_dt;
    int stages, inits;
    bool hold;
    GhostPss() { out = nextout = om = 0; stages = inits = 0; }
    virtual ~GhostPss() {}
    void init(double mag, double ang, double ts);
    void predictor(double t_inc, bool flag);
    void corrector(double t_inc, bool flag);
    double getVstab();
    void setOmega(double x);
};
} }
#endif
