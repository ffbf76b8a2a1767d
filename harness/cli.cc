#include "cli.hh"
#include "command-utilities.hh"
#include <filesystem>
#include <fstream>
#include <iostream>
#include <iterator>
#include <sstream>

namespace fs = std::filesystem;

Ran cli(std::vector<std::string> args)
{
  std::vector<char*> v;
  for (auto &a : args) v.push_back(&a[0]);
  v.push_back(0);
  std::ostringstream e, o;
  struct Swap {
    std::ostream &s; std::streambuf *p;
    Swap(std::ostream &s, std::ostream &t): s(s), p(s.rdbuf(t.rdbuf())) {}
    ~Swap() { s.rdbuf(p); s.clear(); }
  } a(std::cout, o), b(std::cerr, e);
  // as a new process would find them
  std::cout.copyfmt(std::ios(0)); std::cout.exceptions(std::ios::goodbit);
  int rc = get_sub_command(args[0].c_str())(args.size() - 1, v.data() + 1);
  return {rc, o.str(), e.str()};
}

std::string slurp(const std::string &p)
{
  std::ifstream f(p, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}

void spew(const std::string &p, const std::string &b)
{ std::ofstream(p, std::ios::binary | std::ios::trunc).write(b.data(), b.size()); }

std::map<std::string, std::string> dir(const std::string &path)
{
  std::map<std::string, std::string> r;
  for (auto &e : fs::recursive_directory_iterator(path))
    r[e.path().lexically_relative(path)] = e.is_symlink() ? "(link)" + fs::read_symlink(e.path()).string() : e.is_directory() ? "(directory)" : slurp(e.path());
  return r;
}

void wipe(const std::string &path) { for (auto &e : fs::directory_iterator(path)) fs::remove_all(e.path()); }
