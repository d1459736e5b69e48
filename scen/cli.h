// Runs the command-line programs of /repo/tools inside the simulation.
#pragma once
#include <string>
#include <vector>

namespace h {
// exit status of `args[0] args[1] ...`; out: what it printed
int run_program(const std::vector<std::string>& args, std::string* out = nullptr);
// the data tools' scenarios use the programs instead of the functions
extern bool g_cli;
void c09_body();
void c13_body();
}  // namespace h
