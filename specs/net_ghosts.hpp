// The network and the factory with default constructors (no communicator at hand), for the scenarios on networks.
#ifndef net_ghosts_h
#define net_ghosts_h
#include "gridpack/applications/modules/powerflow/pf_factory_module.hpp"
namespace gridpack { namespace powerflow {
class GhostNet : public PFNetwork {
  public:
    GhostNet();
};
class GhostFactory : public PFFactoryModule {
  public:
    GhostFactory();
};
} }
#endif
