#include "../../../compat.hpp"
