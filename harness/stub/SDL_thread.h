#include "SDL.h"
