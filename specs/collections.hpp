#ifndef ghost_collections_h
#define ghost_collections_h
#include "gridpack/component/data_collection.hpp"
namespace gridpack { namespace component {
class GhostArchive {
  public:
    std::map<std::string, int> ints;
    std::map<std::string, long> longs;
    std::map<std::string, bool> bools;
    std::map<std::string, std::string> strings;
    std::map<std::string, float> floats;
    std::map<std::string, double> doubles;
    std::map<std::string, gridpack::ComplexType> complexes;
    GhostArchive &operator&(std::map<std::string, int> &x) { ints = x; return *this; }
    GhostArchive &operator&(std::map<std::string, long> &x) { longs = x; return *this; }
    GhostArchive &operator&(std::map<std::string, bool> &x) { bools = x; return *this; }
    GhostArchive &operator&(std::map<std::string, std::string> &x) { strings = x; return *this; }
    GhostArchive &operator&(std::map<std::string, float> &x) { floats = x; return *this; }
    GhostArchive &operator&(std::map<std::string, double> &x) { doubles = x; return *this; }
    GhostArchive &operator&(std::map<std::string, gridpack::ComplexType> &x) { complexes = x; return *this; }
};
void ghostTransfer(DataCollection &from, GhostArchive &ar);
} }
#endif
