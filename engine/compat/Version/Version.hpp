#pragma once
static const char versionString[64] = "verif";
