#include "../../compat.hpp"
