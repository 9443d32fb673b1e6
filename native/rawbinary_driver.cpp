// Answers queries about a tree of binary observation files through AnalysisInputManager.
// Each query on one line of standard input; each answer on one line, floats as the bits of their representation.
#include <eustace/analysis/inputmanager.h>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <sstream>
#include <memory>
#include <string>
using namespace EUSTACE;
static void bits(std::ostream& out, double x)
{
  uint64_t u; memcpy(&u, &x, 8);
  out << ' ' << std::hex << u << std::dec;
}
static void observations(std::ostream& out, const AnalysisInputRetrieval& r, bool locate)
{
  out << ' ' << r.NumObservations() << ' ' << r.NumLocalCorrelationRanges();
  for (size_t i = 0; i < r.NumLocalCorrelationRanges(); i++) bits(out, r.LocalCorrelationRange(i));
  for (AnalysisInputIterator it(r); it.HasElement(); it.Next())
  {
    out << ' ' << it.Identifier();
    bits(out, it.Measurement());
    bits(out, it.UncertaintyUncorrelated());
    for (size_t i = 0; i < r.NumLocalCorrelationRanges(); i++) bits(out, it.UncertaintyLocallyCorrelated(i));
    if (locate) { bits(out, it.Location().latitude); bits(out, it.Location().longitude); }
  }
}
int main()
{
  std::unique_ptr<AnalysisInputManager> manager;
  std::string line;
  while (std::getline(std::cin, line))
  {
    std::istringstream in(line);
    std::ostringstream out;
    std::string verb;
    in >> verb;
    try
    {
      int source = 0, observable = 0;
      long day = 0;
      if (verb == "base")
      {
        std::string path; in >> path;
        manager.reset(new AnalysisInputManager(path.c_str()));
      }
      else if (verb == "specify")
      {
        long last; in >> source >> observable >> day >> last;
        manager->Specify(AnalysisInput((AnalysisInput::sourcetype)source, (AnalysisInput::observabletype)observable, day, last));
      }
      else if (verb == "day")
      {
        in >> source >> observable >> day;
        AnalysisInputRetrieval r;
        manager->RetrieveDay(r, (AnalysisInput::sourcetype)source, (AnalysisInput::observabletype)observable, day);
        observations(out, r, true);
      }
      else if (verb == "locations")
      {
        in >> source >> observable;
        std::vector<uint64_t> ids;
        uint64_t id;
        while (in >> id) ids.push_back(id);
        AnalysisInputRetrievalCollection c;
        manager->RetrieveLocations(c, (AnalysisInput::sourcetype)source, (AnalysisInput::observabletype)observable, ids);
        out << ' ' << c.Retrievals().size();
        for (size_t i = 0; i < c.Retrievals().size(); i++)
        {
          observations(out, *c.Retrievals()[i], false);
          bits(out, c.Retrievals()[i]->ComputeLocationLookup(ids[i]).latitude);
          bits(out, c.Retrievals()[i]->ComputeLocationLookup(ids[i]).longitude);
        }
      }
      else if (verb == "totallocations") { in >> source; out << ' ' << manager->TotalLocations((AnalysisInput::sourcetype)source); }
      else if (verb == "totalmobile") { in >> source >> observable >> day; out << ' ' << manager->TotalDailyMobileLocations((AnalysisInput::sourcetype)source, (AnalysisInput::observabletype)observable, day); }
      else if (verb == "totaldaily") { in >> source >> observable >> day; out << ' ' << manager->TotalDailyObservations((AnalysisInput::sourcetype)source, (AnalysisInput::observabletype)observable, day); }
      else if (verb == "total") { in >> source >> observable; out << ' ' << manager->TotalObservations((AnalysisInput::sourcetype)source, (AnalysisInput::observabletype)observable); }
      std::cout << "ok" << out.str() << std::endl;
    }
    catch (const FormatException&)
    {
      std::cout << "refused" << std::endl;
    }
    catch (const std::exception&)
    {
      std::cout << "refused" << std::endl;
    }
  }
  return 0;
}
