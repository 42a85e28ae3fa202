#pragma once
#include "dv_archive.h"
