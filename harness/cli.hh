// Run a sub-command of the program in this process.
#ifndef VERIF_CLI_HH
#define VERIF_CLI_HH
#include <map>
#include <string>
#include <vector>
struct Ran { int rc; std::string out, err; };
Ran cli(std::vector<std::string> args);                 // args[0] names the sub-command
std::string slurp(const std::string &path);
void spew(const std::string &path, const std::string &b);
std::map<std::string, std::string> dir(const std::string &path = ".");   // every file there, by relative name
void wipe(const std::string &path = ".");               // empty a directory
#endif
