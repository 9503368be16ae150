#pragma once
using ssize_t = long;
