#pragma once
#include "pup.h"
