// P11: exported signals list every sample.
#include "arr.hh"
#include "SignalExport.hh"

static float draw_float(pbt::Case& c, bool time) {
  switch(c.weighted({2, 2, 2, 2, 1})) {
    case 0: return (float)c.integer(-2000, 2000);
    case 1: return (float)c.real(-1000.0, 1000.0);
    case 2: { float m = (float)c.real(1.0, 10.0) * (c.boolean() ? -1.0f : 1.0f); int e = time ? (int)c.integer(-8, 9) : (int)c.integer(-36, 37); return m * (float)std::pow(10.0, e); }
    case 3: return (float)c.integer(-4000, 4000) / 1024.0f;
    default: return time ? 0.5f + (float)c.integer(-5, 5) * 1e-3f : 0.0f;
  }
}

// digits behind the point, or -1 if the text is not a number of the expected form
static bool parse(const std::string& s, double& value, int& digits, bool& exponent) {
  std::size_t i = 0, n = s.size(); auto digit = [&](std::size_t k) { return k < n && s[k] >= '0' && s[k] <= '9'; };
  if(i < n && (s[i] == '-' || s[i] == '+')) { i++; } if(!digit(i)) { return false; } while(digit(i)) { i++; } digits = 0; exponent = false;
  if(i < n && s[i] == '.') { i++; while(digit(i)) { i++; digits++; } }
  if(i < n && (s[i] == 'e' || s[i] == 'E')) { exponent = true; i++; if(i < n && (s[i] == '-' || s[i] == '+')) { i++; } if(!digit(i)) { return false; } while(digit(i)) { i++; } }
  if(i != n) { return false; }
  value = std::strtod(s.c_str(), nullptr); return true;
}

PROPERTY(round_trip, 1) {
  auto path = c.dir() / "signal.csv"; int times = (int)c.integer(1, 3); bool shrunk = false, multi = false; std::size_t before = 0;
  if(c.chance(1, 4)) { std::ofstream o(path); o << "left over from something else\n1, 2\n"; NOTE(c, "file exists already"); }
  for(int k = 0; k < times; k++) {
    std::size_t n = c.chance(1, 10) ? 0 : c.small<std::size_t>(1, c.chance(1, 20) ? 3000 : 60); std::vector<float> t, v;
    std::uint64_t salt = 0; if(n > 60) { salt = 1 + c.draw(1000); }   // long signals from a seed
    for(std::size_t i = 0; i < n; i++) { if(salt) { t.push_back(0.25f * (float)i); v.push_back((float)((double)(pbt::mix(salt, i) % 2000001) * 1e-6 - 1.0)); } else { t.push_back(draw_float(c, true)); v.push_back(draw_float(c, false)); } }
    bool preset = c.chance(1, 3); int tp = preset ? 3 : (int)c.integer(0, 10), vp = preset ? 15 : (int)c.integer(0, 18);
    NOTE(c, "export " << n << " samples with " << tp << " and " << vp << " digits");
    if(preset) { ExportSignal(t, v, path.string()); } else { ExportSignal(t, v, path.string(), tp, vp); }
    std::ifstream in(path); std::string line; std::size_t row = 0;
    CHECK(c, in.good(), "no file was written");
    while(std::getline(in, line)) {
      CHECK(c, row < n, "more rows than samples: \"" << line << "\"");
      auto comma = line.find(','); CHECK(c, comma != std::string::npos, "row " << row << " is \"" << line << "\"");
      auto trim = [](std::string s) { while(!s.empty() && (s.front() == ' ' || s.front() == '\t')) { s.erase(s.begin()); } while(!s.empty() && (s.back() == ' ' || s.back() == '\r')) { s.pop_back(); } return s; };
      std::string a = trim(line.substr(0, comma)), b = trim(line.substr(comma + 1)); double x = 0, y = 0; int dx = 0, dy = 0; bool ex = false, ey = false;
      CHECK(c, parse(a, x, dx, ex) && parse(b, y, dy, ey), "row " << row << " is \"" << line << "\"");
      CHECK(c, !ex && dx == tp, "time of row " << row << " is written as " << a << " instead of with " << tp << " decimals");
      CHECK(c, ey && dy == vp, "value of row " << row << " is written as " << b << " instead of in scientific notation with " << vp << " decimals");
      double et = 0.5 * std::pow(10.0, -tp) * (1 + 1e-9) + std::fabs((double)t[row]) * 1e-15, ev = (0.5 * std::pow(10.0, -vp) * (1 + 1e-9) + 1e-15) * std::pow(10.0, std::floor(std::log10(std::max(std::fabs((double)v[row]), 1e-300)) + 1e-12));
      CHECK(c, std::fabs(x - (double)t[row]) <= et, "time of row " << row << " reads back as " << a << " instead of " << std::setprecision(12) << (double)t[row]);
      CHECK(c, std::fabs(y - (double)v[row]) <= ev, "value of row " << row << " reads back as " << b << " instead of " << std::setprecision(12) << (double)v[row]);
      row++;
    }
    CHECK(c, row == n, "exported " << row << " rows for " << n << " samples");
    shrunk = shrunk || (k > 0 && n < before); multi = multi || n > 1; before = n;
  }
  c.nontrivial(multi); c.label_if(times > 1, "exported again"); c.label_if(shrunk, "replaced a longer file");
}
