#pragma once
#include <bits/stdc++.h>
