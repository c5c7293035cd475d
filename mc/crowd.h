#pragma once
#include "fix.h"

// Many servers and clients at once: the same story for several properties, each looks at its part.
enum CrowdLook { LookData = 1, LookIds = 2, LookNotes = 4, LookEnds = 8, LookReport = 16 };
ListCheck *crowd(int looks);
