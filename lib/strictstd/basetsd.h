#pragma once
using SSIZE_T = long long;
