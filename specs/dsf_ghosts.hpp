// Stand-ins for the machines and dynamic loads of a bus of the full-Y network: arbitrary injections and admittances, and a
// record of the calls received. The bus is checked against them, that is against the models' interface.
#ifndef dsf_ghosts_h
#define dsf_ghosts_h
#include "base_generator_model.hpp"
#include "base_load_model.hpp"
namespace gridpack { namespace dynamic_simulation {
class GhostGen : public BaseGeneratorModel {
  public:
    double yr, yi, ir, ii, angle;
    int n_pci, n_cci, n_pred, n_corr, n_init, n_volt, n_freq, n_wide;
    double dt, mag, ang, ts, vr, vi, fr, wide;
    bool flag;
    // values under observation; calls that adjust the machine
    double wangle, wspeed, wp, wq, pval;
    int n_trip, n_par, ptype;
    GhostGen() { wangle = wspeed = wp = wq = pval = 0; n_trip = n_par = ptype = 0; yr = yi = ir = ii = angle = dt = mag = ang = ts = vr = vi = fr = wide = 0; n_pci = n_cci = n_pred = n_corr = n_init = n_volt = n_freq = n_wide = 0; flag = false; }
    virtual ~GhostGen() {}
    void init(double mag, double ang, double ts);
    ComplexType INorton();
    ComplexType NortonImpedence();
    void predictor_currentInjection(bool flag);
    void corrector_currentInjection(bool flag);
    void predictor(double t_inc, bool flag);
    void corrector(double t_inc, bool flag);
    void setVoltage(ComplexType voltage);
    void setFreq(double dFreq);
    double getAngle();
    void setWideAreaFreqforPSS(double freq);
    bool tripGenerator();
    bool applyGeneratorParAdjustment(int controlType, double value);
    void getWatchValues(std::vector<double> &vals);
};
class GhostLoad : public BaseLoadModel {
  public:
    double yr, yi, ir, ii;
    int n_pci, n_cci, n_pred, n_corr, n_init, n_volt, n_freq, n_post, n_change;
    double dt, mag, ang, ts, vr, vi, fr, perc;
    bool flag;
    double online;
    GhostLoad() { online = 0; yr = yi = ir = ii = dt = mag = ang = ts = vr = vi = fr = perc = 0; n_pci = n_cci = n_pred = n_corr = n_init = n_volt = n_freq = n_post = n_change = 0; flag = false; }
    virtual ~GhostLoad() {}
    void init(double mag, double ang, double ts);
    ComplexType INorton();
    ComplexType NortonImpedence();
    void predictor_currentInjection(bool flag);
    void corrector_currentInjection(bool flag);
    void predictor(double t_inc, bool flag);
    void corrector(double t_inc, bool flag);
    void dynamicload_post_process(double t_inc, bool flag);
    bool changeLoad(double percentageFactor);
    void setVoltage(ComplexType voltage);
    void setFreq(double dFreq);
    double getFonline();
};
} }
#endif
