// The Qt object of C27; moc'ed when the check is built.
#pragma once
#include "value.hpp"
#include <QObject>
#include <string>
struct BaseObj : QObject
{
    Q_OBJECT
public:
Q_SIGNALS:
    void base(const h::V& v);
};
struct Obj : BaseObj
{
    Q_OBJECT
public:
Q_SIGNALS:
    void one(h::V v);
    void ref(const h::V& v);
    void many(int i, const h::V& v, h::V w, const std::string& s);
    void two(const h::V& v, int i);
    void none();
};
