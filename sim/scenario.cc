// Scenario text form: one "key value" per line.
#include "core.h"
#include <sstream>
namespace sim {
std::string Scenario::Text() const {
  std::ostringstream o;
  o << "mode " << mode << "\nvariant " << variant << "\ncheck " << check << "\nseed " << seed << "\nsched " << sched
    << "\nparties " << parties << "\nservers " << servers << "\ndb " << db << "\neps " << eps << "\ndelta " << delta
    << "\nstage " << stage << "\nqueries ";
  for (size_t i = 0; i < queries.size(); i++) o << (i ? "," : "") << queries[i];
  o << "\nhosts " << hosts << "\ncrypto " << crypto << "\nedge " << edge << "\nseedsalt " << seedsalt << "\nfixedkey "
    << fixedkey << "\nkeymode " << keymode << "\nstrat " << strat << "\nchunk " << chunk << "\nshortw " << shortw
    << "\nconnfail " << connfail << "\nrbuf " << rbuf << "\nsbuf " << sbuf << "\nfair " << fair << "\nslow " << slow
    << "\nnstart " << nstart << "\nskew " << skew << "\nmaxsteps " << maxsteps << "\n";
  for (auto& f : faults) o << "fault " << f.kind << " " << f.node << " " << f.at << " " << f.arg << "\n";
  for (auto& e : extra) o << "x." << e.first << " " << e.second << "\n";
  return o.str();
}
Scenario Scenario::Parse(const std::string& text) {
  Scenario s;
  std::istringstream in(text);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream l(line);
    std::string k, v;
    if (!(l >> k)) continue;
    if (k == "fault") { Fault f; l >> f.kind >> f.node >> f.at >> f.arg; s.faults.push_back(f); continue; }
    l >> v;
    if (k.rfind("x.", 0) == 0) { s.extra[k.substr(2)] = v; continue; }
    auto I = [&] { return atoi(v.c_str()); };
    auto U = [&] { return (uint64_t)strtoull(v.c_str(), nullptr, 10); };
    if (k == "mode") s.mode = v; else if (k == "variant") s.variant = v; else if (k == "check") s.check = v;
    else if (k == "seed") s.seed = U(); else if (k == "sched") s.sched = U();
    else if (k == "parties") s.parties = I(); else if (k == "servers") s.servers = I(); else if (k == "db") s.db = U();
    else if (k == "eps") s.eps = v; else if (k == "delta") s.delta = v; else if (k == "stage") s.stage = v;
    else if (k == "queries") {
      s.queries.clear();
      std::istringstream q(v); std::string t;
      while (std::getline(q, t, ',')) s.queries.push_back(strtoul(t.c_str(), nullptr, 10));
    }
    else if (k == "hosts") s.hosts = I(); else if (k == "crypto") s.crypto = I(); else if (k == "edge") s.edge = I();
    else if (k == "seedsalt") s.seedsalt = I(); else if (k == "fixedkey") s.fixedkey = I(); else if (k == "keymode") s.keymode = I();
    else if (k == "strat") s.strat = I(); else if (k == "chunk") s.chunk = I(); else if (k == "shortw") s.shortw = I();
    else if (k == "connfail") s.connfail = I(); else if (k == "rbuf") s.rbuf = U(); else if (k == "sbuf") s.sbuf = U();
    else if (k == "fair") s.fair = I(); else if (k == "slow") s.slow = I(); else if (k == "nstart") s.nstart = I();
    else if (k == "skew") s.skew = I(); else if (k == "maxsteps") s.maxsteps = U();
  }
  while ((int)s.queries.size() < s.servers) s.queries.push_back(s.queries.empty() ? 1 : s.queries.back());
  return s;
}
}  // namespace sim
