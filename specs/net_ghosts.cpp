#include "net_ghosts.hpp"
namespace gridpack { namespace powerflow {
GhostNet::GhostNet() : PFNetwork(gridpack::parallel::Communicator()) {}
GhostFactory::GhostFactory() : PFFactoryModule(boost::shared_ptr<PFNetwork>(new GhostNet())) {}
} }
