#include "fwd.hpp"
