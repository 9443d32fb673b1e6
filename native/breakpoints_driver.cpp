// Reads a break point file and prints the break table, per-station tables and the result of the rejection policies.
// Input lines: "file PATH" | "table t.. ; s.. ; l.." as counts, then "policy CODE THRESHOLD DECAY" | "stations" | "station N" | "locations"
#include <eustace/analysis/break_points/insitu_land_break_points.h>
#include <cstdio>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
using namespace EUSTACE;
int main()
{
  std::streambuf* real = std::cout.rdbuf();
  std::ostringstream sink;
  std::string line, path;
  while (std::getline(std::cin, line))
  {
    std::istringstream in(line);
    std::ostringstream out;
    std::string verb;
    in >> verb;
    std::cout.rdbuf(sink.rdbuf());
    std::string status = "ok";
    try
    {
      if (verb == "file") in >> path;
      else
      {
        BreakPointsReader reader(path.c_str());
        if (verb == "locations")
        {
          std::vector<std::vector<float> > l = reader.ObservationLocationLookup();
          for (size_t r = 0; r < l.size(); r++) for (size_t i = 0; i < l[r].size(); i++) out << ' ' << (double)l[r][i];
        }
        else
        {
          std::unique_ptr<ObservationBreakingPoints> b(reader.observation());
          if (verb == "policy")
          {
            int code; double threshold, decay;
            in >> code >> threshold >> decay;
            b->apply_policy(code, threshold, decay);
          }
          if (verb == "stations")
          {
            std::vector<int32_t> s = b->stations_collection(), c = b->stations_count();
            out << ' ' << b->number_of_stations();
            for (size_t i = 0; i < s.size(); i++) out << ' ' << s[i] << ' ' << c[i];
          }
          else if (verb == "station")
          {
            int n; in >> n;
            std::vector<int32_t> t = b->filtered_breakpoints(n);
            for (size_t i = 0; i < t.size(); i++) out << ' ' << t[i];
          }
          else
          {
            out << ' ' << b->number_of_observations();
            for (size_t i = 0; i < b->break_time.size(); i++) out << ' ' << b->break_station.at(i) << ' ' << b->break_time.at(i) << ' ' << b->break_likelihood.at(i);
          }
        }
      }
    }
    catch (...)
    {
      status = "refused";
    }
    std::cout.rdbuf(real);
    std::cout << status << out.str() << std::endl;
  }
  return 0;
}
