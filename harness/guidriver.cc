// Drives the editor's command layer (gui/model.h on a QUndoStack) and its item models.
// Standard input: one request per line, tab-separated fields, percent-encoded.  Standard output: one JSON value per
// request.  Views are mirrored by objects that follow the models' notifications only.
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include <QApplication>
#include <QGraphicsPathItem>
#include <QGraphicsPolygonItem>
#include <QGraphicsTextItem>
#include <QImage>
#include <QPainter>
#include <QUndoStack>
#include <QSortFilterProxyModel>

#include "src/event.h"
#include "src/expression/constant.h"
#include "src/expression/exponential.h"
#include "src/ext/variant.h"
#include "src/fault_tree.h"
#include "src/initializer.h"
#include "src/model.h"
#include "src/serialization.h"
#include "src/settings.h"
#include "src/xml.h"

#include "gui/diagram.h"
#include "gui/elementcontainermodel.h"
#include "gui/model.h"
#include "gui/modeltree.h"

#include "guijson.h"

using namespace scram;
namespace gm = scram::gui::model;
using Fields = std::vector<std::string>;

static std::string dump(mef::Model* m, gm::Model* g) {
  std::map<std::string, std::string> els;
  std::map<std::string, std::string> in;   // gate -> its fault tree
  std::map<std::string, std::string> trees;
  for (const mef::FaultTree& ft : m->fault_trees()) {
    std::set<std::string> gates;
    for (const mef::Gate& x : ft.gates()) { in[x.name()] = ft.name(); gates.insert(x.name()); }
    trees[ft.name()] = "{\"name\":" + q(ft.name()) + ",\"label\":" + q(ft.label()) + ",\"attrs\":" + attrs(ft) + ",\"gates\":" +
        arr(gates, [](const std::string& s) { return q(s); }) + "}";
  }
  auto own = [](const mef::Element& e) {
    for (const auto& a : e.attributes()) if (a.name() == "flavor" && a.value() == "undeveloped") return "Undeveloped";
    return "Basic";
  };
  int n = 0;
  for (mef::BasicEvent& b : m->table<mef::BasicEvent>()) {
    std::string flavor = own(b);
    if (g) {
      auto it = g->basicEvents().find(&b);
      flavor = it == g->basicEvents().end() ? "no proxy" : gm::BasicEvent::flavorToString((*it)->flavor()).toStdString();
    }
    els[b.id() + "/" + std::to_string(n++)] =
        el("basic", b, flavor, expr(b.HasExpression() ? &b.expression() : nullptr),
           b.HasExpression() ? num(b.p()) : "", false, nullptr, "");
  }
  for (const mef::HouseEvent& h : m->house_events())
    els[h.id() + "/" + std::to_string(n++)] = el("house", h, "", "", "", h.state(), nullptr, "");
  for (const mef::Gate& x : m->gates())
    els[x.id() + "/" + std::to_string(n++)] = el("gate", x, "", "", "", false, &x, in.count(x.name()) ? in[x.name()] : "");
  std::string r = "{\"name\":" + q(m->HasDefaultName() ? "" : m->name()) + ",\"label\":" + q(m->label()) + ",\"attrs\":" + attrs(*m) +
      ",\"trees\":" + arr(trees, [](const auto& x) { return x.second; }) + ",\"els\":" + arr(els, [](const auto& x) { return x.second; });
  if (g)
    r += ",\"proxies\":[" + std::to_string(g->basicEvents().size()) + "," + std::to_string(g->houseEvents().size()) + "," +
        std::to_string(g->gates().size()) + "]";
  return r + "}";
}

// ---- views ---------------------------------------------------------------------------------------------
struct Row {
  std::vector<std::string> cells;
  std::vector<Row> kids;
};
static std::string json(const Row& r) {
  return "{\"c\":" + arr(r.cells, [](const std::string& s) { return q(s); }) + ",\"k\":" + arr(r.kids, json) + "}";
}
static Row readRow(const QAbstractItemModel* m, int row, const QModelIndex& parent) {
  Row r;
  for (int c = 0; c < m->columnCount(parent); ++c)
    r.cells.push_back(m->data(m->index(row, c, parent), Qt::DisplayRole).toString().toStdString());
  QModelIndex me = m->index(row, 0, parent);
  for (int k = 0; k < m->rowCount(me); ++k) r.kids.push_back(readRow(m, k, me));
  return r;
}
static std::vector<Row> readAll(const QAbstractItemModel* m) {
  std::vector<Row> r;
  for (int k = 0; k < m->rowCount({}); ++k) r.push_back(readRow(m, k, {}));
  return r;
}

struct Mirror {
  QAbstractItemModel* m;
  std::vector<Row> rows;
  std::string trouble;
  QObject ctx;

  explicit Mirror(QAbstractItemModel* model) : m(model) {
    rows = readAll(m);
    auto connect = [this](auto sig, auto f) { QObject::connect(m, sig, &ctx, f); };
    connect(&QAbstractItemModel::rowsInserted, [this](const QModelIndex& p, int a, int b) {
      auto* l = list(p);
      if (!l || a > (int)l->size()) return bad("rows inserted outside");
      for (int k = a; k <= b; ++k) l->insert(l->begin() + k, readRow(m, k, p));
    });
    connect(&QAbstractItemModel::rowsRemoved, [this](const QModelIndex& p, int a, int b) {
      auto* l = list(p);
      if (!l || b >= (int)l->size()) return bad("rows removed outside");
      l->erase(l->begin() + a, l->begin() + b + 1);
    });
    connect(&QAbstractItemModel::rowsMoved, [this](const QModelIndex& p, int a, int b, const QModelIndex& t, int to) {
      auto *l = list(p), *d = list(t);
      if (!l || l != d || b >= (int)l->size()) return bad("rows moved outside");
      std::vector<Row> x(l->begin() + a, l->begin() + b + 1);
      l->erase(l->begin() + a, l->begin() + b + 1);
      if (to > a) to -= b - a + 1;
      l->insert(l->begin() + to, x.begin(), x.end());
    });
    connect(&QAbstractItemModel::dataChanged, [this](const QModelIndex& a, const QModelIndex& b) {
      if (!a.isValid() || !b.isValid()) return bad("data changed of no index");
      auto* l = list(a.parent());
      if (!l || b.row() >= (int)l->size()) return bad("data changed outside");
      for (int r = a.row(); r <= b.row(); ++r)
        for (int c = a.column(); c <= b.column(); ++c) {
          if (c >= (int)(*l)[r].cells.size()) return bad("data changed outside");
          (*l)[r].cells[c] = m->data(m->index(r, c, a.parent()), Qt::DisplayRole).toString().toStdString();
        }
    });
    connect(&QAbstractItemModel::modelReset, [this] { rows = readAll(m); });
    connect(&QAbstractItemModel::layoutChanged, [this] { rows = readAll(m); });
  }
  void bad(const std::string& s) { if (trouble.empty()) trouble = s; }
  std::vector<Row>* list(const QModelIndex& p) {
    if (!p.isValid()) return &rows;
    auto* l = list(p.parent());
    return !l || p.row() >= (int)l->size() ? nullptr : &(*l)[p.row()].kids;
  }
};

struct View {   // one item model with its mirror, and a sorted proxy of it with its own mirror
  std::string name;
  std::unique_ptr<QAbstractItemModel> model;
  std::unique_ptr<QSortFilterProxyModel> proxy;
  std::unique_ptr<Mirror> mirror, sorted;
  View(std::string n, QAbstractItemModel* m, QSortFilterProxyModel* p, int col, const std::string& pattern) : name(std::move(n)), model(m), proxy(p) {
    mirror = std::make_unique<Mirror>(m);
    if (p) {
      p->setSourceModel(m);
      if (!pattern.empty()) p->setFilterRegExp(QString::fromStdString(pattern));
      if (col >= 0) p->sort(col);
      sorted = std::make_unique<Mirror>(p);
    }
  }
  std::string dump() const {
    auto rows = [](const std::vector<Row>& r) { return arr(r, json); };
    return "{\"v\":" + q(name) + ",\"mirror\":" + rows(mirror->rows) + ",\"live\":" + rows(readAll(model.get())) + ",\"trouble\":" +
        q(mirror->trouble + (sorted ? sorted->trouble : "")) +
        (proxy ? ",\"filter\":" + q(proxy->filterRegExp().pattern()) + ",\"psorted\":" + rows(sorted->rows) + ",\"plive\":" + rows(readAll(proxy.get())) : std::string()) + "}";
  }
};

// ---- diagrams ------------------------------------------------------------------------------------------
namespace dg = scram::gui::diagram;

// The shape of a symbol, without its last child (the transfer symbol) when that is not wanted.
static std::string shape(QGraphicsItem* i, bool last = true) {
  std::string r = std::to_string(i->type());
  if (auto* x = dynamic_cast<QGraphicsPathItem*>(i)) r += "p" + std::to_string(x->path().elementCount());
  if (auto* x = dynamic_cast<QGraphicsPolygonItem*>(i)) r += "g" + std::to_string(x->polygon().size());
  r += "(";
  auto kids = i->childItems();
  for (int k = 0; k < kids.size() - !last; ++k) r += shape(kids[k]);
  return r + ")";
}
static std::string text(QGraphicsItem* i) {
  if (auto* t = dynamic_cast<QGraphicsTextItem*>(i)) return t->toPlainText().toStdString();
  for (auto* k : i->childItems())
    if (auto t = text(k); !t.empty()) return t;
  return "";
}

struct Diagram {   // of one gate; it follows the notifications of the models
  gm::Gate* gate;
  bool gone = false;
  std::unique_ptr<dg::DiagramScene> scene;
  Diagram(gm::Gate* g, gm::Model* m) : gate(g), scene(std::make_unique<dg::DiagramScene>(g, m)) {
    QObject::connect(m, qOverload<gm::Gate*>(&gm::Model::removed), scene.get(), [this](gm::Gate* x) { if (x == gate) gone = true; });
  }
  static void walk(dg::Event* e, int depth, std::vector<std::string>* out) {
    auto* g = dynamic_cast<dg::Gate*>(e);
    std::string sym, txt;
    bool transfer = false;
    if (g) {
      for (QGraphicsItem* i : g->childItems()) {
        if (dynamic_cast<dg::Event*>(i) || std::abs(i->pos().y() - g->boundingRect().height()) > 1e-6 || i->pos().x() != 0) continue;
        if (static_cast<gm::Gate*>(g->data())->type() != mef::kNull && i->type() == QGraphicsLineItem::Type) continue;
        txt = text(i);
        auto match = [&](bool all) {
          for (int c = 0; c <= mef::kNull; ++c) {
            auto cn = static_cast<mef::Connective>(c);
            if (cn == mef::kAtleast && static_cast<gm::Gate*>(g->data())->type() != mef::kAtleast) continue;
            if (shape(g->getGateGraphicsType(cn).get()) == shape(i, all)) sym += (sym.empty() ? "" : " ") + std::string(mef::kConnectiveToString[c]);
          }
        };
        match(true);
        if (sym.empty() && !i->childItems().empty()) { transfer = true; match(false); }
        break;
      }
    }
    std::string kind = g ? "gate" : dynamic_cast<dg::TransferIn*>(e) ? "transfer" : dynamic_cast<dg::HouseEvent*>(e) ? "house" :
        dynamic_cast<dg::UndevelopedEvent*>(e) ? "undeveloped" : dynamic_cast<dg::BasicEvent*>(e) ? "basic" : "?";
    out->push_back("{\"d\":" + std::to_string(depth) + ",\"k\":" + q(kind) + ",\"id\":" + q(e->data()->id()) + ",\"sym\":" + q(sym) +
        ",\"text\":" + q(txt) + ",\"out\":" + (transfer ? "true" : "false") + "}");
    std::vector<dg::Event*> kids;
    for (QGraphicsItem* i : e->childItems())
      if (auto* x = dynamic_cast<dg::Event*>(i)) kids.push_back(x);
    std::stable_sort(kids.begin(), kids.end(), [](dg::Event* a, dg::Event* b) { return a->pos().x() < b->pos().x(); });
    for (auto* k : kids) walk(k, depth + 1, out);
  }
  std::string dump() {
    std::vector<std::string> nodes;
    for (QGraphicsItem* i : scene->items())
      if (!i->parentItem())
        if (auto* e = dynamic_cast<dg::Event*>(i)) walk(e, 0, &nodes);
    QImage image(40, 40, QImage::Format_RGB32);
    QPainter painter(&image);
    scene->render(&painter);
    return "{\"gone\":" + std::string(gone ? "true" : "false") + ",\"root\":" + q(gone ? std::string() : gate->id().toStdString()) +
        ",\"nodes\":" + arr(nodes, [](const auto& x) { return x; }) + "}";
  }
};

// ---- a session -----------------------------------------------------------------------------------------
struct Session {
  std::unique_ptr<mef::Model> model;
  std::unique_ptr<gm::Model> gui;
  std::unique_ptr<QUndoStack> stack;
  std::vector<std::unique_ptr<View>> views;

  std::vector<std::unique_ptr<Diagram>> diagrams;

  ~Session() { diagrams.clear(); views.clear(); stack.reset(); gui.reset(); }

  void attach(int col, const std::string& pattern) {
    auto add = [this](View* v) { views.emplace_back(v); };
    add(new View("basic", new gm::BasicEventContainerModel(gui.get()), new gm::SortFilterProxyModel, col, pattern));
    add(new View("house", new gm::HouseEventContainerModel(gui.get()), new gm::SortFilterProxyModel, col, pattern));
    add(new View("gates", new gm::GateContainerModel(gui.get()), new gm::GateSortFilterProxyModel, col, pattern));
    add(new View("tree", new gui::ModelTree(gui.get()), nullptr, -1, ""));
    for (const auto& g : gui->gates()) diagrams.push_back(std::make_unique<Diagram>(g.get(), gui.get()));
  }

  template <class T>
  T* find(const std::string& id) {
    auto t = model->table<typename T::Origin>();
    auto it = t.find(id);
    if (it == t.end()) throw std::runtime_error("no such event: " + id);
    auto p = gui->table<T>().find(&*it);
    if (p == gui->table<T>().end()) throw std::runtime_error("no proxy: " + id);
    return p->get();
  }
  mef::FaultTree* tree(const std::string& name) {
    if (name.empty()) return nullptr;
    auto it = model->table<mef::FaultTree>().find(name);
    if (it == model->table<mef::FaultTree>().end()) throw std::runtime_error("no such fault tree: " + name);
    return &*it;
  }
  mef::Expression* expression(const std::string& s) {
    auto constant = [this](double v) {
      auto e = std::make_unique<mef::ConstantExpression>(v);
      auto* r = e.get();
      model->Add(std::move(e));
      return r;
    };
    if (s == "none") return nullptr;
    if (s[0] == 'c') return constant(std::stod(s.substr(2)));
    auto k = s.find(',');
    auto e = std::make_unique<mef::Exponential>(constant(std::stod(s.substr(2, k - 2))), constant(std::stod(s.substr(k + 1))));
    auto* r = e.get();
    model->Add(std::move(e));
    return r;
  }
  std::unique_ptr<mef::Formula> formula(const std::string& c, int min, const Fields& f, std::size_t from) {
    mef::Formula::ArgSet set;
    for (std::size_t k = from; k < f.size(); ++k) set.Add(model->GetEvent(f[k]));
    mef::Connective cn = mef::kNull;
    for (int k = 0; k < mef::kNumConnectives; ++k)
      if (c == mef::kConnectiveToString[k]) cn = static_cast<mef::Connective>(k);
    std::optional<int> mn;
    if (cn == mef::kAtleast) mn = min;
    return std::make_unique<mef::Formula>(cn, std::move(set), mn);
  }
  // fields from k on: name label, then flavor expr | state | ft conn min args...
  std::unique_ptr<mef::BasicEvent> makeBasic(const Fields& f, std::size_t k) {
    auto e = std::make_unique<mef::BasicEvent>(f[k]);
    e->label(f[k + 1]);
    if (f[k + 2] == "Undeveloped") e->AddAttribute({"flavor", "undeveloped", ""});
    if (auto* x = expression(f[k + 3])) e->expression(x);
    return e;
  }
  std::unique_ptr<mef::HouseEvent> makeHouse(const Fields& f, std::size_t k) {
    auto e = std::make_unique<mef::HouseEvent>(f[k]);
    e->label(f[k + 1]);
    e->state(f[k + 2] == "1");
    return e;
  }
  std::unique_ptr<mef::Gate> makeGate(const Fields& f, std::size_t k) {
    auto e = std::make_unique<mef::Gate>(f[k]);
    e->label(f[k + 1]);
    e->formula(formula(f[k + 3], std::stoi(f[k + 4]), f, k + 5));
    return e;
  }

  template <class T>
  QUndoCommand* rename(const Fields& f) {
    return new gm::Element::SetId<T>(find<T>(f[2]), QString::fromStdString(f[3]), model.get(), tree(f[4]));
  }
  template <class E>
  QUndoCommand* change(const Fields& f) {   // type kind id ft newkind name label ...
    E* e = find<E>(f[2]);
    if constexpr (!std::is_same_v<E, gm::BasicEvent>)
      if (f[4] == "basic")
        return new gm::Model::ChangeEventType<E, gm::BasicEvent>(e, makeBasic(f, 5), gui.get(), tree(f[3]));
    if constexpr (!std::is_same_v<E, gm::HouseEvent>)
      if (f[4] == "house")
        return new gm::Model::ChangeEventType<E, gm::HouseEvent>(e, makeHouse(f, 5), gui.get(), tree(f[3]));
    if constexpr (!std::is_same_v<E, gm::Gate>)
      if (f[4] == "gate")
        return new gm::Model::ChangeEventType<E, gm::Gate>(e, makeGate(f, 5), gui.get(), tree(f[3]));
    throw std::runtime_error("bad type change");
  }

  QUndoCommand* command(const Fields& f) {
    const std::string& op = f[0];
    auto element = [&]() -> gm::Element* {
      if (f[1] == "basic") return find<gm::BasicEvent>(f[2]);
      if (f[1] == "house") return find<gm::HouseEvent>(f[2]);
      if (f[1] == "gate") return find<gm::Gate>(f[2]);
      return gui.get();
    };
    if (op == "label") return new gm::Element::SetLabel(element(), QString::fromStdString(f[3]));
    if (op == "rename") return f[1] == "basic" ? rename<gm::BasicEvent>(f) : f[1] == "house" ? rename<gm::HouseEvent>(f) : rename<gm::Gate>(f);
    if (op == "flavor")
      return new gm::BasicEvent::SetFlavor(find<gm::BasicEvent>(f[1]), f[2] == "Basic" ? gm::BasicEvent::Basic : gm::BasicEvent::Undeveloped);
    if (op == "expr") { auto* e = find<gm::BasicEvent>(f[1]); return new gm::BasicEvent::SetExpression(e, expression(f[2])); }
    if (op == "state") return new gm::HouseEvent::SetState(find<gm::HouseEvent>(f[1]), f[2] == "1");
    if (op == "formula") return new gm::Gate::SetFormula(find<gm::Gate>(f[1]), formula(f[2], std::stoi(f[3]), f, 4));
    if (op == "add") {
      if (f[1] == "basic") return new gm::Model::AddEvent<gm::BasicEvent>(makeBasic(f, 2), gui.get());
      if (f[1] == "house") return new gm::Model::AddEvent<gm::HouseEvent>(makeHouse(f, 2), gui.get());
      return new gm::Model::AddEvent<gm::Gate>(makeGate(f, 2), gui.get(), tree(f[4]));
    }
    if (op == "remove") {
      if (f[1] == "basic") return new gm::Model::RemoveEvent<gm::BasicEvent>(find<gm::BasicEvent>(f[2]), gui.get());
      if (f[1] == "house") return new gm::Model::RemoveEvent<gm::HouseEvent>(find<gm::HouseEvent>(f[2]), gui.get());
      return new gm::Model::RemoveEvent<gm::Gate>(find<gm::Gate>(f[2]), gui.get(), tree(f[3]));
    }
    if (op == "type") return f[1] == "basic" ? change<gm::BasicEvent>(f) : f[1] == "house" ? change<gm::HouseEvent>(f) : change<gm::Gate>(f);
    if (op == "addft") return new gm::Model::AddFaultTree(std::make_unique<mef::FaultTree>(f[1]), gui.get());
    if (op == "rmft") return new gm::Model::RemoveFaultTree(tree(f[1]), gui.get());
    if (op == "mname") return new gm::Model::SetName(QString::fromStdString(f[1]), gui.get());
    throw std::runtime_error("unknown request " + op);
  }
};

static std::string decode(const std::string& s) {
  std::string r;
  for (std::size_t i = 0; i < s.size(); ++i)
    if (s[i] == '%') { r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16)); i += 2; }
    else r += s[i];
  return r;
}

static std::unique_ptr<mef::Model> load(const std::string& rng, const Fields& files) {
  static xml::Validator validator(rng);
  return mef::Initializer(files, core::Settings(), /*allow_extern=*/false, &validator).model();
}

int main(int argc, char** argv) {
  QApplication app(argc, argv);
  std::string rng = argv[1];
  std::unique_ptr<Session> s;
  std::string line;
  while (std::getline(std::cin, line)) {
    Fields f;
    std::stringstream ss(line);
    for (std::string x; std::getline(ss, x, '\t');) f.push_back(decode(x));
    if (!line.empty() && line.back() == '\t') f.push_back("");
    std::string err;
    std::string extra;
    try {
      if (f[0] == "load") {   // load file...
        s.reset();
        s = std::make_unique<Session>();
        s->model = load(rng, Fields(f.begin() + 1, f.end()));
        s->gui = std::make_unique<gm::Model>(s->model.get());
        s->stack = std::make_unique<QUndoStack>();
      } else if (f[0] == "attach") {
        s->attach(std::stoi(f[1]), f[2]);
      } else if (f[0] == "undo") {
        s->stack->undo();
      } else if (f[0] == "redo") {
        s->stack->redo();
      } else if (f[0] == "begin") {
        s->stack->beginMacro("macro");
      } else if (f[0] == "end") {
        s->stack->endMacro();
      } else if (f[0] == "save") {   // save file: the saved file, loaded again
        mef::Serialize(*s->model, f[1]);
        auto m = load(rng, {f[1]});
        extra = ",\"saved\":" + dump(m.get(), nullptr);
      } else {
        s->stack->push(s->command(f));
      }
    } catch (const std::exception& e) {
      err = e.what();
      if (err.empty()) err = "exception";
    }
    std::string out = "{\"err\":" + q(err);
    if (s && s->gui) {
      out += ",\"model\":" + dump(s->model.get(), s->gui.get()) + ",\"views\":" + arr(s->views, [](const auto& v) { return v->dump(); }) +
          ",\"diagrams\":" + arr(s->diagrams, [](const auto& v) { return v->dump(); }) + ",\"index\":" + std::to_string(s->stack->index()) + ",\"count\":" + std::to_string(s->stack->count()) + extra;
    }
    std::cout << out << "}" << std::endl;
  }
  return 0;
}
