#include <spot/vp_spot.hh>
