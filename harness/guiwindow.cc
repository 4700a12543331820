// Drives the editor's main window as a user does: triggers its actions, and answers the dialogs they open.
// Standard input: one JSON request per line, {"c": command, ..., "s": [answers to the dialogs, in turn]}.
// Standard output: one JSON value per request: the dialogs that opened, and what the window shows afterwards.
#include <cstdlib>
#include <iostream>
#include <set>
#include <sstream>
#include <vector>

#include <QAction>
#include <QApplication>
#include <QCheckBox>
#include <QComboBox>
#include <QDialogButtonBox>
#include <QDoubleSpinBox>
#include <QFileDialog>
#include <QGroupBox>
#include <QHeaderView>
#include <QJsonArray>
#include <QJsonDocument>
#include <QJsonObject>
#include <QKeyEvent>
#include <QLineEdit>
#include <QListView>
#include <QListWidget>
#include <QMenu>
#include <QMessageBox>
#include <QPlainTextEdit>
#include <QPointer>
#include <QProgressDialog>
#include <QPushButton>
#include <QRadioButton>
#include <QSpinBox>
#include <QTabWidget>
#include <QTimer>
#include <QTreeView>
#include <QUndoStack>

#include "src/expression/exponential.h"
#include "src/fault_tree.h"
#include "src/initializer.h"
#include "src/model.h"
#include "src/settings.h"
#include "src/xml.h"

#include "gui/mainwindow.h"
#include "gui/model.h"

#include "guijson.h"

namespace gm = scram::gui::model;

static std::string rng;                 // gui.rng
static QJsonArray script;               // the answers left
static std::string seen;                // the dialogs met so far, as JSON values
static std::string trouble;             // an exception that reached the event loop
static std::set<QWidget*> handled;      // dialogs answered already

static std::string b(bool v) { return v ? "true" : "false"; }

struct App : QApplication {
  using QApplication::QApplication;
  bool notify(QObject* o, QEvent* e) override {
    try {
      return QApplication::notify(o, e);
    } catch (const std::exception& x) {
      trouble = std::string("exception: ") + typeid(x).name();
    }
    return false;
  }
};

template <class T>
static T* child(QWidget* w, const char* name) {
  T* t = w->findChild<T*>(QString::fromLatin1(name));
  if (!t) throw std::runtime_error(std::string("no widget ") + name);
  return t;
}
static void key(QWidget* w, int k) {
  QKeyEvent down(QEvent::KeyPress, k, Qt::NoModifier), up(QEvent::KeyRelease, k, Qt::NoModifier);
  QApplication::sendEvent(w, &down);
  QApplication::sendEvent(w, &up);
}
// Types a text into an emptied line; what the line does not take is lost.
static void type(QLineEdit* l, const QString& text) {
  if (!l->isEnabled() || !l->isVisible()) return;
  l->clear();
  for (QChar c : text) l->insert(QString(c));
}
static void choose(QComboBox* box, int k) {
  if (!box->isEnabled() || !box->isVisible()) return;
  auto* view = qobject_cast<QListView*>(box->view());
  if (k >= box->count() || (view && view->isRowHidden(k))) return;
  box->setCurrentIndex(k);
}
static void click(QAbstractButton* x) {
  if (x->isVisible()) x->click();
}
template <class Box>
static void press(QWidget* w, Box which) {
  auto* box = w->findChild<QDialogButtonBox*>();
  QPushButton* p = box ? box->button(which) : nullptr;
  if (p) p->click();
}

// ---- the dialogs ---------------------------------------------------------------------------------------
static std::string texts(QListWidget* l) {
  std::string r = "[";
  for (int k = 0; k < l->count(); ++k) r += (k ? "," : "") + q(l->item(k)->text());
  return r + "]";
}
static std::string showEvent(QWidget* d) {
  auto* box = child<QComboBox>(d, "typeBox");
  auto* view = qobject_cast<QListView*>(box->view());
  std::string types = "[";
  for (int k = 0; k < box->count(); ++k)
    if (!view || !view->isRowHidden(k)) types += (types.size() > 1 ? "," : "") + std::to_string(k);
  auto* ok = d->findChild<QDialogButtonBox*>()->button(QDialogButtonBox::Ok);
  auto line = [d](const char* n) { return q(child<QLineEdit>(d, n)->text()); };
  return "{\"name\":" + line("nameLine") + ",\"label\":" + q(child<QPlainTextEdit>(d, "labelText")->toPlainText()) +
      ",\"type\":" + std::to_string(box->currentIndex()) + ",\"types\":" + types + "]" +
      ",\"state\":" + std::to_string(child<QComboBox>(d, "stateBox")->currentIndex()) +
      ",\"hasExpr\":" + b(child<QGroupBox>(d, "expressionBox")->isChecked()) +
      ",\"etype\":" + std::to_string(child<QComboBox>(d, "expressionType")->currentIndex()) +
      ",\"const\":" + line("constantValue") + ",\"rate\":" + line("exponentialRate") +
      ",\"conn\":" + std::to_string(child<QComboBox>(d, "connectiveBox")->currentIndex()) +
      ",\"min\":" + std::to_string(child<QSpinBox>(d, "minNumberBox")->value()) +
      ",\"args\":" + texts(child<QListWidget>(d, "argsList")) + ",\"ft\":" + line("containerFaultTreeName") +
      ",\"ok\":" + b(ok && ok->isEnabled()) + "}";
}
static void gesture(QWidget* d, const QJsonObject& g) {
  QString k = g["k"].toString();
  QString v = g["v"].toString();
  int n = g["n"].toInt();
  if (k == "name") type(child<QLineEdit>(d, "nameLine"), v);
  else if (k == "label") child<QPlainTextEdit>(d, "labelText")->setPlainText(v);
  else if (k == "type") choose(child<QComboBox>(d, "typeBox"), n);
  else if (k == "state") choose(child<QComboBox>(d, "stateBox"), n);
  else if (k == "hasExpr") {
    auto* x = child<QGroupBox>(d, "expressionBox");
    if (x->isVisible() && x->isCheckable()) x->setChecked(n);
  }
  else if (k == "etype") choose(child<QComboBox>(d, "expressionType"), n);
  else if (k == "const") type(child<QLineEdit>(d, "constantValue"), v);
  else if (k == "rate") type(child<QLineEdit>(d, "exponentialRate"), v);
  else if (k == "conn") choose(child<QComboBox>(d, "connectiveBox"), n);
  else if (k == "min") {
    auto* x = child<QSpinBox>(d, "minNumberBox");
    if (x->isEnabled() && x->isVisible()) x->setValue(n);
  }
  else if (k == "addarg" || k == "addenter") {
    auto* l = child<QLineEdit>(d, "addArgLine");
    bool focus = l->isEnabled() && l->isVisible();
    if (focus) {
      d->activateWindow();
      l->setFocus();
      QCoreApplication::processEvents();
    }
    bool given = l->hasFocus();
    if (focus && !given) {
      QFocusEvent in(QEvent::FocusIn);
      QApplication::sendEvent(l, &in);
    }
    type(l, v);
    if (k == "addarg") click(child<QPushButton>(d, "addArgButton"));
    else if (l->isVisible()) key(l, Qt::Key_Return);
    if (focus && !given) {
      QFocusEvent out(QEvent::FocusOut);
      QApplication::sendEvent(l, &out);
    }
  }
  else if (k == "rmarg") {
    auto* l = child<QListWidget>(d, "argsList");
    if (!l->isVisible()) return;
    l->setCurrentRow(n);   // -1: nothing chosen
    click(child<QPushButton>(d, "removeArgButton"));
  }
  else if (k == "ft") type(child<QLineEdit>(d, "containerFaultTreeName"), v);
  else throw std::runtime_error("unknown gesture");
}

static std::string showSettings(QWidget* d) {
  auto on = [d](const char* n) { return b(child<QAbstractButton>(d, n)->isChecked()); };
  return "{\"bdd\":" + on("bdd") + ",\"zbdd\":" + on("zbdd") + ",\"mocus\":" + on("mocus") + ",\"pi\":" + on("primeImplicants") +
      ",\"prob\":" + on("probability") + ",\"imp\":" + on("importance") + ",\"approx\":" +
      b(child<QGroupBox>(d, "approximationsBox")->isChecked()) + ",\"rare\":" + on("rareEvent") + ",\"mcub\":" + on("mcub") +
      ",\"order\":" + std::to_string(child<QSpinBox>(d, "productOrder")->value()) + ",\"time\":" +
      q(num(child<QDoubleSpinBox>(d, "missionTime")->value())) + "}";
}
static void settingsGesture(QWidget* d, const QJsonObject& g) {
  QString k = g["k"].toString();
  if (k == "order") child<QSpinBox>(d, "productOrder")->setValue(g["n"].toInt());
  else if (k == "time") child<QDoubleSpinBox>(d, "missionTime")->setValue(g["x"].toDouble());
  else if (k == "approx") {
    auto* x = child<QGroupBox>(d, "approximationsBox");
    if (x->isEnabled()) x->setChecked(!x->isChecked());
  }
  else click(child<QAbstractButton>(d, k.toLatin1().data()));
}

static void met(const std::string& s) { seen += (seen.empty() ? "" : ",") + s; }

static void answer(QWidget* w) {
  if (qobject_cast<QMessageBox*>(w) && qobject_cast<QFileDialog*>(w->parentWidget())) {   // a file is replaced
    click(qobject_cast<QMessageBox*>(w)->button(QMessageBox::Yes));
    return;
  }
  QJsonObject a;
  if (!script.isEmpty()) a = script.takeAt(0).toObject();
  bool accept = a["ok"].toBool();
  std::string kind = "other";
  if (auto* m = qobject_cast<QMessageBox*>(w)) {
    const char* icons[] = {"plain", "information", "warning", "critical", "question"};
    met("{\"d\":\"message\",\"icon\":" + q(std::string(icons[m->icon()])) + "}");
    QString v = a["b"].toString();
    auto which = v == "Save" ? QMessageBox::Save : v == "Discard" ? QMessageBox::Discard : v == "Cancel" ? QMessageBox::Cancel : QMessageBox::NoButton;
    QAbstractButton* x = which == QMessageBox::NoButton ? nullptr : m->button(which);
    if (!x) x = m->button(QMessageBox::Ok);
    if (!x) x = m->button(QMessageBox::Cancel);
    if (x) x->click(); else m->reject();
  } else if (auto* f = qobject_cast<QFileDialog*>(w)) {
    met(std::string("{\"d\":\"file\",\"mode\":") + (f->acceptMode() == QFileDialog::AcceptSave ? "\"save\"" : "\"open\"") + "}");
    QJsonArray files = a["files"].toArray();
    if (files.isEmpty()) { f->reject(); return; }
    QString text;
    for (const auto& x : files)
      text += files.size() == 1 ? x.toString() : QString("\"%1\" ").arg(x.toString());
    f->findChild<QLineEdit*>(QStringLiteral("fileNameEdit"))->setText(text);
    QMetaObject::invokeMethod(f, "accept");
  } else if (w->findChild<QComboBox*>(QStringLiteral("connectiveBox"))) {
    std::string open = showEvent(w);
    std::string steps = "[";
    for (const auto& g : a["g"].toArray()) {
      gesture(w, g.toObject());
      steps += (steps.size() > 1 ? "," : "") + showEvent(w);
    }
    std::string shown = showEvent(w);
    met("{\"d\":\"event\",\"open\":" + open + ",\"steps\":" + steps + "],\"shown\":" + shown + "}");
    press(w, accept ? QDialogButtonBox::Ok : QDialogButtonBox::Cancel);
    if (w->isVisible()) press(w, QDialogButtonBox::Cancel);
  } else if (w->findChild<QGroupBox*>(QStringLiteral("approximationsBox"))) {
    std::string open = showSettings(w);
    std::string steps = "[";
    for (const auto& g : a["g"].toArray()) {
      settingsGesture(w, g.toObject());
      steps += (steps.size() > 1 ? "," : "") + showSettings(w);
    }
    met("{\"d\":\"settings\",\"open\":" + open + ",\"steps\":" + steps + "],\"shown\":" + showSettings(w) + "}");
    press(w, accept ? QDialogButtonBox::Ok : QDialogButtonBox::Cancel);
  } else if (auto* l = w->findChild<QLineEdit*>(QStringLiteral("nameLine"))) {
    std::string open = q(l->text());
    if (a.contains("v")) type(l, a["v"].toString());
    auto* ok = w->findChild<QDialogButtonBox*>()->button(QDialogButtonBox::Ok);
    met("{\"d\":\"name\",\"open\":" + open + ",\"shown\":" + q(l->text()) + ",\"ok\":" + b(ok && ok->isEnabled()) + "}");
    press(w, accept ? QDialogButtonBox::Ok : QDialogButtonBox::Cancel);
    if (w->isVisible()) press(w, QDialogButtonBox::Cancel);
  } else {
    met("{\"d\":\"other\"}");
    w->close();
  }
}

// Watches for dialogs.  Every call schedules the next before it answers, so that dialogs opened by an answer are met.
static void watch() {
  QTimer::singleShot(1, [] {
    watch();
    QWidget* w = QApplication::activeModalWidget();
    if (!w || !w->isVisible() || qobject_cast<QProgressDialog*>(w) || handled.count(w)) return;
    handled.insert(w);
    QObject::connect(w, &QObject::destroyed, [w] { handled.erase(w); });
    try {
      answer(w);
    } catch (const std::exception& x) {
      trouble = std::string("exception: ") + typeid(x).name();
      w->close();
    }
  });
}

// ---- the window ----------------------------------------------------------------------------------------
struct Driver {
  std::unique_ptr<gui::MainWindow> win;
  QPointer<QAbstractItemView> table[3];   // gates, basic, house

  template <class T>
  T* w(const char* n) { return child<T>(win.get(), n); }
  QAction* action(const char* n) { return child<QAction>(win.get(), n); }
  QUndoStack* stack() { return win->findChild<QUndoStack*>(); }

  void start() {
    win.reset();
    win = std::make_unique<gui::MainWindow>();
    win->show();
  }
  QAbstractItemModel* tree() { return w<QTreeView>("modelTree")->model(); }
  // The tables of the elements, opened from the model's tree when they are not there.
  void tables() {
    if (!tree()) return;
    for (int k = 0; k < 3; ++k) {
      if (table[k]) continue;
      auto* t = w<QTreeView>("modelTree");
      emit t->activated(tree()->index(k + 1, 0));   // fault trees, gates, basic events, house events
      table[k] = qobject_cast<QAbstractItemView*>(w<QTabWidget>("tabWidget")->currentWidget());
      if (!table[k]) throw std::runtime_error("no table");
    }
  }
  static int kindOf(const std::string& k) { return k == "gate" ? 0 : k == "basic" ? 1 : 2; }

  std::string rows(QAbstractItemModel* m, const QModelIndex& p = {}) {
    std::string r = "[";
    for (int k = 0; k < m->rowCount(p); ++k) {
      std::string cells;
      for (int c = 0; c < m->columnCount(p); ++c)
        cells += (c ? "," : "") + q(m->index(k, c, p).data(Qt::DisplayRole).toString());
      r += (k ? ",{\"c\":[" : "{\"c\":[") + cells + "],\"k\":" + rows(m, m->index(k, 0, p)) + "}";
    }
    return r + "]";
  }
  // Rows of a table of numbers, with all digits.
  std::string exactRows(QAbstractItemModel* m) {
    std::string r = "[";
    for (int k = 0; k < m->rowCount(); ++k) {
      std::string cells;
      for (int c = 0; c < m->columnCount(); ++c) {
        QVariant v = m->index(k, c).data(Qt::DisplayRole);
        bool d = v.type() == QVariant::Double || v.userType() == QMetaType::Float;
        cells += (c ? "," : "") + (d ? q(num(v.toDouble())) : q(v.toString()));
      }
      r += (k ? ",[" : "[") + cells + "]";
    }
    return r + "]";
  }
  QModelIndex find(int kind, const QString& id) {
    auto* m = table[kind]->model();
    for (int k = 0; k < m->rowCount(); ++k)
      if (m->index(k, 0).data(Qt::DisplayRole).toString() == id) return m->index(k, 0);
    throw std::runtime_error("no such row");
  }

  std::string model() {
    std::map<std::string, std::string> in, trees;
    QModelIndex top = tree()->index(0, 0);
    for (int k = 0; k < tree()->rowCount(top); ++k) {
      auto* ft = static_cast<mef::FaultTree*>(tree()->index(k, 0, top).data(Qt::UserRole).value<void*>());
      for (const mef::Gate& x : ft->gates()) in[x.name()] = ft->name();
      trees[ft->name()] = "{\"name\":" + q(ft->name()) + ",\"label\":" + q(ft->label()) + ",\"top\":" +
          q(ft->top_events().empty() ? std::string() : ft->top_events().front()->name()) + "}";
    }
    std::vector<std::string> els;
    std::string shown;
    for (int t = 0; t < 3; ++t) {
      auto* m = table[t]->model();
      for (int k = 0; k < m->rowCount(); ++k) {
        void* p = m->index(k, 0).data(Qt::UserRole).value<void*>();
        if (t == 0) {
          auto* x = static_cast<gm::Gate*>(p)->data();
          els.push_back(el("gate", *x, "", "", "", false, x, in.count(x->name()) ? in[x->name()] : ""));
        } else if (t == 1) {
          auto* g = static_cast<gm::BasicEvent*>(p);
          auto* x = g->data();
          els.push_back(el("basic", *x, gm::BasicEvent::flavorToString(g->flavor()).toStdString(),
                           expr(x->HasExpression() ? &x->expression() : nullptr), "", false, nullptr, ""));
        } else {
          auto* x = static_cast<gm::HouseEvent*>(p)->data();
          els.push_back(el("house", *x, "", "", "", x->state(), nullptr, ""));
        }
      }
    }
    return "{\"trees\":" + arr(trees, [](const auto& x) { return x.second; }) + ",\"els\":" + arr(els, [](const auto& x) { return x; }) + "}";
  }
  std::vector<QAction*> recent() {   // the recently opened files that can be chosen
    std::vector<QAction*> r;
    auto* menu = w<QMenu>("menuRecentFiles");
    if (menu->isEnabled())
      for (QAction* a : menu->actions())
        if (a->isVisible() && a->isEnabled() && !a->isSeparator() && a != action("actionClearList")) r.push_back(a);
    return r;
  }
  std::string show() {
    std::string r = ",\"recent\":" + arr(recent(), [](QAction* a) { return q(a->text()); }) + ",\"title\":" + q(win->windowTitle()) + ",\"modified\":" + b(win->isWindowModified()) +
        ",\"visible\":" + b(win->isVisible()) + ",\"index\":" + std::to_string(stack()->index()) +
        ",\"count\":" + std::to_string(stack()->count()) + ",\"on\":{";
    for (const char* n : {"actionSave", "actionSaveAs", "actionAddElement", "actionRun", "actionExportReportAs", "actionRenameModel"})
      r += (r.back() == '{' ? "" : ",") + q(std::string(n + 6)) + ":" + b(action(n)->isEnabled());
    r += "}";
    if (tree()) {
      tables();
      r += ",\"model\":" + model() + ",\"tables\":{\"gate\":" + rows(table[0]->model()) + ",\"basic\":" + rows(table[1]->model()) +
          ",\"house\":" + rows(table[2]->model()) + ",\"tree\":" + rows(tree()) + "}";
    }
    auto* rep = w<QTreeView>("reportTree")->model();
    r += ",\"tabs\":[";
    auto* tabs = w<QTabWidget>("tabWidget");
    for (int k = 0; k < tabs->count(); ++k) r += (k ? "," : "") + q(tabs->tabText(k));
    r += "]";
    r += ",\"report\":" + (rep ? rows(rep) : std::string("[]")) + ",\"hasReport\":" + b(rep != nullptr);
    return r;
  }

  std::string run(const QJsonObject& o) {
    std::string extra;
    QString c = o["c"].toString();
    auto fire = [this](const char* n) {
      if (action(n)->isEnabled()) action(n)->trigger();
      else throw std::runtime_error("action is not enabled");
    };
    if (c == "start") start();
    else if (c == "new") fire("actionNewModel");
    else if (c == "open") fire("actionOpenFiles");
    else if (c == "save") fire("actionSave");
    else if (c == "saveas") fire("actionSaveAs");
    else if (c == "add") fire("actionAddElement");
    else if (c == "name") fire("actionRenameModel");
    else if (c == "settings") fire("actionSettings");
    else if (c == "run") fire("actionRun");
    else if (c == "export") fire("actionExportReportAs");
    else if (c == "undo") { if (stack()->canUndo()) stack()->undo(); }
    else if (c == "redo") { if (stack()->canRedo()) stack()->redo(); }
    else if (c == "close") extra = ",\"closed\":" + b(win->close());
    else if (c == "edit") {
      tables();
      int k = kindOf(o["kind"].toString().toStdString());
      emit table[k]->activated(find(k, o["id"].toString()));
    }
    else if (c == "remove") {
      tables();
      int k = kindOf(o["kind"].toString().toStdString());
      w<QTabWidget>("tabWidget")->setCurrentWidget(table[k]);
      table[k]->selectionModel()->clearSelection();
      table[k]->selectionModel()->select(find(k, o["id"].toString()), QItemSelectionModel::ClearAndSelect | QItemSelectionModel::Rows);
      fire("actionRemoveElement");
    }
    else if (c == "results") {   // the tables of one result: products, then importance when there is one
      auto* t = w<QTreeView>("reportTree");
      QModelIndex top = t->model()->index(o["n"].toInt(), 0);
      extra = ",\"name\":" + q(top.data().toString()) + ",\"results\":[";
      for (int k = 0; k < t->model()->rowCount(top); ++k) {
        QPointer<QWidget> before = w<QTabWidget>("tabWidget")->currentWidget();
        emit t->activated(t->model()->index(k, 0, top));
        auto* v = qobject_cast<QAbstractItemView*>(w<QTabWidget>("tabWidget")->currentWidget());
        bool opened = v && v != before;
        extra += std::string(k ? "," : "") + "{\"opened\":" + b(opened) + ",\"rows\":" + (opened ? exactRows(v->model()) : std::string("[]")) + "}";
      }
      extra += "]";
    }
    else if (c == "project") extra = ",\"taken\":" + b(win->setProjectFile(o["file"].toString().toStdString(), {}));
    else if (c == "load") {   // a file, as the loader reads it
      static xml::Validator validator(rng);
      try {
        auto m = mef::Initializer({o["file"].toString().toStdString()}, core::Settings(), false, &validator).model();
        extra = ",\"loaded\":" + dumpFile(m.get()) + ",\"why\":\"\"";
      } catch (const std::exception& x) {
        extra = ",\"why\":" + q(std::string(typeid(x).name()));
      }
    }
    else if (c == "auto") {   // the timer of automatic saving runs out
      bool fired = false;
      for (QTimer* t : win->findChildren<QTimer*>(QString(), Qt::FindDirectChildrenOnly))
        if (t->interval() >= 60000) fired = QMetaObject::invokeMethod(t, "timeout", Qt::DirectConnection);
      extra = ",\"fired\":" + b(fired);
    }
    else if (c == "recent") {
      auto all = recent();
      int n = o["n"].toInt();
      if (n >= all.size()) throw std::runtime_error("no such recent file");
      all[n]->trigger();
    }
    else if (c == "clear") fire("actionClearList");
    else if (c == "show") {}
    else throw std::runtime_error("unknown request");
    QCoreApplication::processEvents();
    return extra;
  }
  static std::string dumpFile(mef::Model* m) {
    std::map<std::string, std::string> in, trees;
    for (const mef::FaultTree& ft : m->fault_trees()) {
      for (const mef::Gate& x : ft.gates()) in[x.name()] = ft.name();
      trees[ft.name()] = "{\"name\":" + q(ft.name()) + ",\"label\":" + q(ft.label()) + ",\"top\":" +
          q(ft.top_events().empty() ? std::string() : ft.top_events().front()->name()) + "}";
    }
    std::vector<std::string> els;
    for (mef::BasicEvent& x : m->table<mef::BasicEvent>()) {
      std::string flavor = "Basic";
      for (const auto& a : x.attributes()) if (a.name() == "flavor" && a.value() == "undeveloped") flavor = "Undeveloped";
      els.push_back(el("basic", x, flavor, expr(x.HasExpression() ? &x.expression() : nullptr), "", false, nullptr, ""));
    }
    for (const mef::HouseEvent& x : m->house_events()) els.push_back(el("house", x, "", "", "", x.state(), nullptr, ""));
    for (const mef::Gate& x : m->gates()) els.push_back(el("gate", x, "", "", "", false, &x, in[x.name()]));
    return "{\"name\":" + q(m->HasDefaultName() ? "" : m->name()) + ",\"trees\":" + arr(trees, [](const auto& x) { return x.second; }) +
        ",\"els\":" + arr(els, [](const auto& x) { return x; }) + "}";
  }
};

int main(int argc, char** argv) {
  rng = argv[1];
  App app(argc, argv);
  QCoreApplication::setOrganizationName(QStringLiteral("scram"));
  QCoreApplication::setApplicationName(QStringLiteral("scram"));
  QLocale::setDefault(QLocale::c());
  Driver d;
  d.start();
  watch();
  std::string line;
  while (std::getline(std::cin, line)) {
    QJsonObject o = QJsonDocument::fromJson(QByteArray::fromStdString(line)).object();
    script = o["s"].toArray();
    seen.clear();
    trouble.clear();
    std::string err, extra, state;
    try {
      extra = d.run(o);
    } catch (const std::exception& x) {
      err = x.what();
      if (err.empty()) err = "exception";
    }
    if (err.empty()) err = trouble;
    std::string dialogs = seen;
    try {
      state = d.show();
    } catch (const std::exception& x) {
      if (err.empty()) err = std::string("show: ") + x.what();
    }
    std::cout << "{\"err\":" << q(err) << ",\"dialogs\":[" << dialogs << "]" << extra << state << "}" << std::endl;
  }
  std::_Exit(0);
}
