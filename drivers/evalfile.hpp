// C35: the file a Hermite curve writes, read back token by token.
#pragma once
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include "vp.hpp"

// the header names the columns; one row per time with the given values; nothing else
inline void evalFile(const char* file, const std::vector<std::string>& names, const std::vector<std::vector<double>>& rows) {
  std::ifstream in(file);
  std::string line, word;
  vp_check(bool(std::getline(in, line)), "the file starts with the names of its columns");
  {
    std::istringstream s(line);
    for (size_t i = 0; i < names.size(); ++i) {
      word = "";
      s >> word;
      vp_check(word == names[i], "one name per column");
    }
    word = "";
    s >> word;
    vp_check(word.empty(), "no name without a column");
  }
  for (size_t j = 0; j < rows.size(); ++j) {
    vp_check(bool(std::getline(in, line)), "one row per sample");
    std::istringstream s(line);
    for (size_t i = 0; i < rows[j].size(); ++i) {
      double x = 0;
      s >> x;
      vp_check(!s.fail(), "a row has all its columns");
      vp_check(vp_rounded(x, rows[j][i]), i == 0 ? "rows carry their times" : "rows carry the curve's values");
    }
    word = "";
    s >> word;
    vp_check(word.empty(), "a row has no further columns");
  }
  vp_check(!std::getline(in, line), "no row beyond the last sample");
}
