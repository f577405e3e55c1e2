// Instantiates DataCollection::serialize for a ghost archive that writes what it is given into a second collection.
#include "gridpack/component/data_collection.hpp"
#include "collections.hpp"
namespace gridpack { namespace component {
void ghostTransfer(DataCollection &from, GhostArchive &ar)
{
  from.serialize(ar, 0);
}
} }
