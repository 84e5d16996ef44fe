// Settings files on a failing disk, and settings in general: C18.
#include "common_util.h"
#include <map>
#include <stdexcept>
#include <boost/thread.hpp>
#include <boost/bind/bind.hpp>
#include <k52/common/settings_manager.h>

using k52::SettingsManager;

namespace {
struct Value { int type; int i; double d; bool b; std::string s; };  // 0 int, 1 double, 2 bool, 3 text
struct Doc { std::string path, text; size_t root; std::map<std::string, Value> values; std::vector<std::string> inner; };
std::string text_of(const Value& v) {
  char t[64];
  switch (v.type) {
    case 0: snprintf(t, sizeof t, "%d", v.i); return t;
    case 1: snprintf(t, sizeof t, "%.17g", v.d); return t;
    case 2: return v.b ? "1" : "0"; // as the settings write it
    default: return v.s;
  }
}
std::string escape(const std::string& s, int style) {
  if (style == 1 && !s.empty()) return "<![CDATA[" + s + "]]>";
  if (style == 2) { std::string r; char t[16]; for (size_t i = 0; i < s.size() && i < 3000; i++) { snprintf(t, sizeof t, i % 2 ? "&#%d;" : "&#x%x;", (unsigned char)s[i]); r += t; } return s.size() > 3000 ? r + s.substr(3000) : r; }
  if (style == 3) { std::string r; for (size_t i = 0; i < s.size(); i++) switch (s[i]) { case '<': r += "&lt;"; break; case '>': r += "&gt;"; break; case '&': r += "&amp;"; break; case '"': r += "&quot;"; break; case '\'': r += "&apos;"; break; default: r += s[i]; } return r; }
  std::string r; for (size_t i = 0; i < s.size(); i++) switch (s[i]) { case '<': r += "&lt;"; break; case '>': r += "&gt;"; break; case '&': r += "&amp;"; break; default: r += s[i]; } return r;
}
Value draw_value() {
  Value v; v.type = (int)sim_draw(4); v.i = 0; v.d = 0; v.b = false;
  static const int is[] = {0, 1, -1, 42, 2147483647, -2147483647 - 1};
  static const double ds[] = {0, 1, -0.1, 1e-300, 1.7976931348623157e308, 0.30000000000000004};
  static const char* ss[] = {"", "a", "hello world", "x<y&z>w", "1 2 3", "--no", "path/to/file.txt", "true=false", " padded ", "two  blanks", "\ttab\t", "12 ", "0x10", "\"quoted\" 'text'"};
  if (v.type == 0) v.i = sim_chance(50) ? is[sim_draw(6)] : (int)sim_draw(100000) - 50000;
  if (v.type == 1) v.d = sim_chance(40) ? ds[sim_draw(6)] : draw_double(-1e3, 1e3);
  if (v.type == 2) v.b = sim_chance(50);
  if (v.type == 3) { v.s = ss[sim_draw(14)]; if (sim_chance(5)) v.s = std::string((size_t)sim_draw(20000), 'q'); }
  return v;
}
void element(Doc& d, const std::string& prefix, int depth, int& budget) {
  int n = 1 + (int)sim_draw(depth == 0 ? 4 : 3);
  for (int i = 0; i < n && budget > 0; i++) {
    budget--;
    char name[16]; snprintf(name, sizeof name, "%c%d", 'a' + (int)sim_draw(4), i);
    std::string p = prefix.empty() ? name : prefix + "." + name;
    switch (sim_draw(4)) { case 0: d.text += "\n  "; break; case 1: d.text += "<!-- <x>1</x> -->"; break; case 2: d.text += " "; break; default: break; }
    d.text += "<"; d.text += name; d.text += ">";
    if (depth < 3 && budget > 0 && sim_chance(35)) { d.inner.push_back(p); element(d, p, depth + 1, budget); }
    else { Value v = draw_value(); d.values[p] = v; d.text += escape(text_of(v), v.type == 3 && v.s.size() < 5000 ? (int)sim_draw(6) : 0); }
    d.text += "</"; d.text += name; d.text += ">";
  }
}
Doc draw_doc(int k) {
  Doc d; char n[32]; snprintf(n, sizeof n, "settings%d.xml", k); d.path = n;
  if (sim_chance(50)) d.text = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n";
  if (sim_chance(20)) d.text += "<!-- settings -->\n";
  d.root = d.text.size();
  int budget = 1 + (int)sim_draw(15);
  std::string root = sim_chance(50) ? "config" : "r";
  d.text += "<" + root + ">";
  std::map<std::string, Value> none;
  element(d, root, 0, budget);
  if (sim_chance(30)) d.text += std::string(1 + sim_draw(9000), ' ');
  d.text += "</" + root + ">"; if (sim_chance(70)) d.text += "\n";
  return d;
}
template <class T> bool has(const SettingsManager& m, const std::string& p, const T& want) {
  try { return m.get<T>(p) == want; } catch (const std::runtime_error&) { return false; }
}
bool holds(const SettingsManager& m, const std::string& p, const Value& v) {
  switch (v.type) { case 0: return has<int>(m, p, v.i); case 1: return has<double>(m, p, v.d); case 2: return has<bool>(m, p, v.b); default: return has<std::string>(m, p, v.s); }
}
bool present(const SettingsManager& m, const std::string& p) { try { m.get<std::string>(p); return true; } catch (const std::runtime_error&) { return false; } }
template <class T> bool put_it(SettingsManager& m, const std::string& p, const T& v) { return m.put(p, v); }
bool put_value(SettingsManager& m, const std::string& p, const Value& v) {
  switch (v.type) { case 0: return m.put(p, v.i); case 1: return m.put(p, v.d); case 2: return m.put(p, v.b); default: return m.put(p, v.s); }
}
void check_all(const SettingsManager& m, const std::map<std::string, Value>& vs, const char* when) {
  for (std::map<std::string, Value>::const_iterator it = vs.begin(); it != vs.end(); ++it)
    if (!holds(m, it->first, it->second)) sim_violation("value-lost", "%s the setting %s is not %.60s but %.60s", when, it->first.c_str(), text_of(it->second).c_str(), m.get<std::string>(it->first, "(missing)").c_str());
}
// absent and mistyped settings
void check_access(const SettingsManager& m, const std::map<std::string, Value>& vs) {
  static const char* gone[] = {"nothing", "config.none.at.all", "r.zz", "config..x"};
  for (int i = 0; i < 4; i++) {
    if (vs.count(gone[i])) continue;
    bool thrown = false;
    try { m.get<int>(gone[i]); } catch (const std::runtime_error&) { thrown = true; }
    if (!thrown) sim_violation("mandatory", "a mandatory setting that is not there (%s) was delivered", gone[i]);
    if (m.get<int>(gone[i], 17) != 17 || m.get<double>(gone[i], -0.25) != -0.25 || m.get<std::string>(gone[i], "dflt") != "dflt" || m.get<bool>(gone[i], true) != true)
      sim_violation("default", "the default of a setting that is not there (%s) was not delivered", gone[i]);
  }
  for (std::map<std::string, Value>::const_iterator it = vs.begin(); it != vs.end(); ++it) {
    const Value& v = it->second;
    if (v.type == 3 && v.s == "hello world") {
      bool thrown = false;
      try { m.get<int>(it->first); } catch (const std::runtime_error&) { thrown = true; }
      if (!thrown) sim_violation("mandatory", "a text was delivered as a mandatory number");
      if (m.get<double>(it->first, 2.5) != 2.5) sim_violation("default", "the default of a setting of another type was not delivered");
    }
    // the default is not used when there is a value
    if (v.type == 0 && m.get<int>(it->first, v.i + 1u) != v.i) sim_violation("default", "a default hides the value of %s", it->first.c_str());
    if (v.type == 1 && m.get<double>(it->first, -7.5) != v.d) sim_violation("default", "a default hides the value of %s", it->first.c_str());
    if (v.type == 2 && m.get<bool>(it->first, !v.b) != v.b) sim_violation("default", "a default hides the value of %s", it->first.c_str());
  }
}
struct Load { Doc* doc; int outcome; bool sound; size_t cut; std::vector<std::pair<std::string, Value> > puts; };
// outcome: 0 failed, 1 everything there, 2 nothing there
void load(Load* l) {
  l->outcome = 0;
  boost::shared_ptr<SettingsManager> m;
  try { m.reset(new SettingsManager(l->doc->path)); }
  catch (const std::runtime_error&) { return; }
  catch (const std::exception& e) { sim_violation("wrong-failure", "loading failed with another kind of failure: %s", e.what()); }
  std::map<std::string, Value>& vs = l->doc->values;
  int there = 0; std::string missing;
  for (std::map<std::string, Value>::iterator it = vs.begin(); it != vs.end(); ++it) { if (holds(*m, it->first, it->second)) there++; else if (missing.empty()) missing = it->first; }
  if (there == (int)vs.size()) l->outcome = 1;
  else {
    for (std::map<std::string, Value>::iterator it = vs.begin(); it != vs.end(); ++it)
      if (present(*m, it->first)) sim_violation("partial", "loading succeeded with %d of %zu settings, %s is not as in the file", there, vs.size(), missing.c_str());
    l->outcome = 2;
  }
  if (l->outcome == 1) {
    check_access(*m, vs);
    std::map<std::string, Value> now = vs;
    for (size_t i = 0; i < l->puts.size(); i++) {
      if (!put_value(*m, l->puts[i].first, l->puts[i].second)) sim_violation("put", "a setting could not be put");
      now[l->puts[i].first] = l->puts[i].second;
      if (i % 2) sim_yield();
    }
    check_all(*m, now, "after putting others");
    check_access(*m, now);
    sim_probe("settings_put", l->puts.size());
  }
}
}
extern "C" void scenario_settings() {
  sim_disk_enable(1);
  int n = 1 + (int)sim_draw(3);
  std::vector<Doc> docs; docs.reserve(n);
  std::vector<Load> ls(n);
  int fault = sim_chance(35) ? 0 : 1 + (int)sim_draw(5); // 1 open 2 read error 3 short reads 4 short reads and errors 5 cut or missing file
  for (int i = 0; i < n; i++) {
    docs.push_back(draw_doc(i));
    Load& l = ls[i]; l.doc = &docs[i]; l.outcome = 0; l.sound = true; l.cut = docs[i].text.size();
    if (i && sim_chance(25)) { l.doc = &docs[0]; l.cut = ls[0].cut; l.sound = ls[0].sound; }
    else if (fault == 5) {
      if (sim_chance(20)) { l.sound = false; l.cut = 0; continue; } // missing
      l.cut = sim_draw(docs[i].text.size() + 1); if (sim_chance(25)) l.cut = docs[i].text.size() - (size_t)sim_draw(3);
      l.sound = l.cut == docs[i].text.size();
    }
    sim_disk_put(l.doc->path.c_str(), l.doc->text.data(), l.cut);
    int np = (int)sim_draw(6);
    for (int k = 0; k < np; k++) {
      std::string p;
      if (!l.doc->values.empty() && sim_chance(50)) { size_t j = sim_draw(l.doc->values.size()); std::map<std::string, Value>::iterator it = l.doc->values.begin(); std::advance(it, j); p = it->first; }
      else { char t[40]; snprintf(t, sizeof t, "new%d.%c", (int)sim_draw(3), 'a' + (int)sim_draw(4)); p = t; }
      l.puts.push_back(std::make_pair(p, draw_value()));
    }
  }
  static const double pc[] = {2, 10, 40};
  double p = pc[sim_draw(3)];
  sim_faults_enable(1);
  sim_disk_faults(fault == 1 ? p : 0, 0, 0, 0, fault == 2 || fault == 4 ? p : 0, fault >= 3 && fault != 5 ? 40 : 0);
  std::vector<boost::shared_ptr<boost::thread> > th;
  for (int i = 0; i < n; i++) th.push_back(boost::shared_ptr<boost::thread>(new boost::thread(boost::bind(&load, &ls[i]))));
  for (int i = 0; i < n; i++) th[i]->join();
  sim_disk_faults(0, 0, 0, 0, 0, 0);
  for (int i = 0; i < n; i++) {
    Load& l = ls[i];
    if ((fault == 0 || fault == 3) && l.outcome != 1) sim_violation("refused", "a settings file that is whole was %s", l.outcome ? "loaded as empty" : "refused");
    if (fault == 5 && l.sound && l.outcome != 1) sim_violation("refused", "a settings file that is whole was %s", l.outcome ? "loaded as empty" : "refused");
    // a file cut before its root element says nothing; anything else must not be taken for an empty one
    if (l.outcome == 2 && !(fault == 5 && l.cut <= l.doc->root)) sim_violation("partial", "settings loaded from a broken file or disk are empty, without a failure");
    if (fault == 5 && !l.sound && l.cut == 0 && !sim_disk_exists(l.doc->path.c_str()) && l.outcome) sim_violation("missing-file", "settings were loaded from a file that does not exist");
    if (sim_disk_exists(l.doc->path.c_str())) {
      std::string now(sim_disk_size(l.doc->path.c_str()), ' ');
      if (!now.empty()) sim_disk_read(l.doc->path.c_str(), &now[0], now.size());
      if (now != l.doc->text.substr(0, l.cut)) sim_violation("file-changed", "loading changed the settings file");
    }
    static const char* oc[] = {"loads_failed", "loads_complete", "loads_of_nothing"}; sim_probe(oc[l.outcome], 1);
    // the disk works again: the file loads
    if (l.sound && l.outcome == 0) { Load again = l; again.puts.clear(); load(&again); if (again.outcome != 1) sim_violation("refused", "a whole settings file was refused after the disk recovered"); }
  }
  if (sim_disk_open_fds()) sim_violation("file-left-open", "%d files are still open", sim_disk_open_fds());
  // settings from the command line
  {
    std::map<std::string, Value> vs; std::vector<std::string> args; args.push_back("program");
    int k = (int)sim_draw(8);
    for (int i = 0; i < k; i++) {
      char t[40]; snprintf(t, sizeof t, "o%d%s", (int)sim_draw(4), sim_chance(30) ? ".sub" : "");
      Value v = draw_value(); if (v.type == 3 && v.s.size() > 100) v.s = "long=1=2";
      args.push_back("--" + std::string(t) + "=" + text_of(v)); vs[t] = v;
      if (sim_chance(20)) args.push_back("ignored=1");
      if (sim_chance(10)) args.push_back("-o0=9");
    }
    std::vector<const char*> av; for (size_t i = 0; i < args.size(); i++) av.push_back(args[i].c_str());
    SettingsManager m((int)av.size(), &av[0]);
    check_all(m, vs, "from the command line");
    check_access(m, vs);
    if (present(m, "ignored") || present(m, "program")) sim_violation("value-invented", "an argument without its prefix became a setting");
  }
  sim_state(H(n, fault));
}

// ---- C24: memory runs out in settings ------------------------------------------------------
extern "C" void scenario_settings_memory() {
  sim_disk_enable(1);
  Doc d = draw_doc(0);
  sim_disk_put(d.path.c_str(), d.text.data(), d.text.size());
  static const double p[] = {0.1, 1, 5};
  boost::shared_ptr<SettingsManager> m;
  for (int k = 0; k < 4 && !m; k++) {
    double pr = p[sim_draw(3)];
    if (k == 3) pr = 0;
    std::string what;
    sim_alloc_faults(pr, pr);
    try { m.reset(new SettingsManager(d.path)); }
    catch (const std::bad_alloc&) { sim_alloc_faults(-1, -1); }
    catch (const std::runtime_error&) { sim_alloc_faults(-1, -1); }
    catch (const std::exception& e) { sim_alloc_faults(-1, -1); sim_violation("wrong-failure", "loading failed with another kind of failure: %s", e.what()); }
    sim_alloc_faults(-1, -1);
    sim_probe(m ? "loads_complete" : "loads_failed", 1);
    if (!m && !sim_alloc_failures()) sim_violation("refused", "a whole settings file was refused although there was memory");
    if (sim_disk_open_fds()) sim_violation("file-left-open", "%d files are still open", sim_disk_open_fds());
  }
  if (!m) sim_violation("refused", "a whole settings file was refused although there was memory");
  std::map<std::string, Value> now = d.values;
  check_all(*m, now, "loaded with little memory");
  int np = (int)sim_draw(8);
  for (int i = 0; i < np; i++) {
    std::string path; Value v = draw_value();
    if (!now.empty() && sim_chance(50)) { size_t j = sim_draw(now.size()); std::map<std::string, Value>::iterator it = now.begin(); std::advance(it, j); path = it->first; }
    else { char t[40]; snprintf(t, sizeof t, "new%d.%c", (int)sim_draw(3), 'a' + (int)sim_draw(4)); path = t; }
    double pr = p[sim_draw(3)] * 5; bool done = false;
    sim_alloc_faults(pr, pr);
    done = put_value(*m, path, v);
    sim_alloc_faults(-1, -1);
    sim_probe(done ? "puts_done" : "puts_refused", 1);
    if (done) now[path] = v;
    check_all(*m, now, done ? "after a put" : "after a put that failed");
  }
  check_access(*m, now);
}
