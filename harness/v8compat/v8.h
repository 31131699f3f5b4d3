// The interface V8 had when Osmium was written (3.x: one implicit isolate, handles that are
// not parameterised by it, callbacks that return their result), on top of the V8 inside the
// installed node.  Nothing of Osmium is replaced: its headers are compiled against this file.
// Only what they use is here.
#ifndef V8COMPAT_V8_H
#define V8COMPAT_V8_H
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include <stdint.h>
#undef v8
#include "/usr/include/node/node.h"
namespace realv8 = v8;

namespace oldv8 {
inline realv8::Isolate* iso() { return realv8::Isolate::GetCurrent(); }
inline realv8::Local<realv8::Context> ctx() { return iso()->GetCurrentContext(); }

// Every class holds the reference itself; handles hold the class, so that -> is its address.
struct Data {
    typedef realv8::Data N;
    realv8::Local<realv8::Data> d;
    bool empty() const { return d.IsEmpty(); }
    void set(realv8::Local<realv8::Data> x) { d = x; }
};
template <class T> inline realv8::Local<typename T::N> loc(const T& t) { return t.d.template As<typename T::N>(); }
template <> inline realv8::Local<realv8::Data> loc<Data>(const Data& t) { return t.d; }
template <class T> T wrap(realv8::Local<typename T::N> l) { T t; t.set(l); return t; }

template <class T> struct Handle {
    mutable T t;
    Handle() {}
    Handle(const T& x) : t(x) {}
    template <class S> Handle(const Handle<S>& h) : t(static_cast<const T&>(h.t)) {}
    T* operator->() const { return &t; }
    T* operator*() const { return &t; }
    bool IsEmpty() const { return t.empty(); }
    void Clear() { t = T(); }
    template <class S> bool operator==(const Handle<S>& h) const { return t.d == h.t.d; }
    template <class S> bool operator!=(const Handle<S>& h) const { return !(*this == h); }
    template <class S> Handle<S> As() const { return Handle<S>::Cast(*this); }
    template <class S> static Handle Cast(const Handle<S>& h) { T x; x.d = h.t.d; return Handle(x); }
};
template <class T> struct Local : Handle<T> {
    Local() {}
    Local(const T& x) : Handle<T>(x) {}
    Local(const Handle<T>& h) : Handle<T>(h) {}
    template <class S> Local(const Local<S>& h) : Handle<T>(h) {}
    template <class S> static Local New(const Handle<S>& h) { return Local(Handle<T>(h)); }
    template <class S> static Local Cast(const Handle<S>& h) { return Local(Handle<T>::Cast(h)); }
};
template <class T> struct Arrow { T t; T* operator->() { return &t; } };

struct Value;
template <class T> struct Persistent {
    std::shared_ptr<realv8::Global<typename T::N> > g;
    Handle<T> local() const { T t; if (g && !g->IsEmpty()) t.set(g->Get(iso())); return Handle<T>(t); }
    Persistent() {}
    template <class S> static Persistent New(const Handle<S>& h) {
        Persistent p; p.g.reset(new realv8::Global<typename T::N>(iso(), loc(static_cast<const T&>(h.t)))); return p;
    }
    Arrow<T> operator->() const { Arrow<T> a; a.t = local().t; return a; }
    bool IsEmpty() const { return !g || g->IsEmpty(); }
    template <class S> operator Handle<S>() const { return Handle<S>(local()); }
    void Dispose() { if (g) g->Reset(); }
    void Clear() { g.reset(); }
    void ClearWeak() { if (g) g->ClearWeak(); }
    bool IsNearDeath() const { return false; }
    typedef void (*Weak)(Persistent<Value>, void*);
    struct Ref { std::shared_ptr<realv8::Global<typename T::N> > g; void* p; Weak f; };
    static void first(const realv8::WeakCallbackInfo<Ref>& i) { i.GetParameter()->g->Reset(); i.SetSecondPassCallback(second); }
    static void second(const realv8::WeakCallbackInfo<Ref>& i) { Ref* r = i.GetParameter(); r->f(Persistent<Value>(), r->p); delete r; }
    void MakeWeak(void* p, Weak f) {
        Ref* r = new Ref(); r->g = g; r->p = p; r->f = f;
        g->SetWeak(r, first, realv8::WeakCallbackType::kParameter);
    }
};

inline int& catching() { static int n = 0; return n; } // TryCatch objects alive
struct Boolean; struct String; struct Object; struct Number;
struct Value : Data {
    typedef realv8::Value N;
    realv8::Local<realv8::Value> v() const { return d.As<realv8::Value>(); }
    bool IsFunction() const { return !empty() && v()->IsFunction(); }
    bool IsUndefined() const { return !empty() && v()->IsUndefined(); }
    bool IsString() const { return !empty() && v()->IsString(); }
    bool IsNumber() const { return !empty() && v()->IsNumber(); }
    bool IsInt32() const { return !empty() && v()->IsInt32(); }
    bool IsUint32() const { return !empty() && v()->IsUint32(); }
    bool IsBoolean() const { return !empty() && v()->IsBoolean(); }
    bool IsTrue() const { return !empty() && v()->IsTrue(); }
    bool IsFalse() const { return !empty() && v()->IsFalse(); }
    bool IsObject() const { return !empty() && v()->IsObject(); }
    bool IsArray() const { return !empty() && v()->IsArray(); }
    bool IsExternal() const { return !empty() && v()->IsExternal(); }
    bool BooleanValue() const { return v()->BooleanValue(iso()); }
    double NumberValue() const { return v()->NumberValue(ctx()).FromMaybe(0); }
    int64_t IntegerValue() const { return v()->IntegerValue(ctx()).FromMaybe(0); }
    uint32_t Uint32Value() const { return v()->Uint32Value(ctx()).FromMaybe(0); }
    bool Equals(const Handle<Value>& o) const { return v()->Equals(ctx(), o.t.v()).FromMaybe(false); }
    bool StrictEquals(const Handle<Value>& o) const { return v()->StrictEquals(o.t.v()); }
    inline Local<Number> ToNumber() const;
    bool IsNull() const { return !empty() && v()->IsNull(); }
    inline Local<Boolean> ToBoolean() const;
    inline Local<String> ToString() const;
    inline Local<Object> ToObject() const;
    int32_t Int32Value() const { return v()->Int32Value(ctx()).FromMaybe(0); }
};
struct Primitive : Value { typedef realv8::Primitive N; };
struct Boolean : Primitive {
    typedef realv8::Boolean N;
    static Local<Boolean> New(bool b) { return wrap<Boolean>(realv8::Boolean::New(iso(), b)); }
    bool Value() const { return v().As<realv8::Boolean>()->Value(); }
};
struct Number : Primitive {
    typedef realv8::Number N;
    double Value() const { return v().As<realv8::Number>()->Value(); }
    static Local<Number> New(double x) { return wrap<Number>(realv8::Number::New(iso(), x)); }
};
struct Integer : Number {
    typedef realv8::Integer N;
    int64_t Value() const { return v().As<realv8::Integer>()->Value(); }
    static Local<Integer> New(int32_t x) { return wrap<Integer>(realv8::Integer::New(iso(), x)); }
    static Local<Integer> NewFromUnsigned(uint32_t x) { return wrap<Integer>(realv8::Integer::NewFromUnsigned(iso(), x)); }
};
struct String : Primitive {
    typedef realv8::String N;
    realv8::Local<realv8::String> s() const { return d.As<realv8::String>(); }
    static Local<String> New(const char* p, int n = -1) {
        return wrap<String>(realv8::String::NewFromUtf8(iso(), p, realv8::NewStringType::kNormal, n).ToLocalChecked());
    }
    static Local<String> New(const uint16_t* p, int n = -1) {
        return wrap<String>(realv8::String::NewFromTwoByte(iso(), p, realv8::NewStringType::kNormal, n).ToLocalChecked());
    }
    static Local<String> NewSymbol(const char* p, int n = -1) {
        return wrap<String>(realv8::String::NewFromUtf8(iso(), p, realv8::NewStringType::kInternalized, n).ToLocalChecked());
    }
    int Length() const { return s()->Length(); }
    static Local<String> Empty() { return wrap<String>(realv8::String::Empty(iso())); }
    static Local<String> Concat(const Handle<String>& a, const Handle<String>& b) { return wrap<String>(realv8::String::Concat(iso(), a.t.s(), b.t.s())); }
    int WriteUtf8(char* b, int n = -1, int* chars = 0, int opt = 0) const { return s()->WriteUtf8(iso(), b, n, chars, opt); }
    int WriteAscii(char* b, int start = 0, int n = -1, int opt = 0) const { return s()->WriteOneByte(iso(), reinterpret_cast<uint8_t*>(b), start, n, opt); }
    int Utf8Length() const { return s()->Utf8Length(iso()); }
    int Write(uint16_t* b, int start = 0, int n = -1, int opt = 0) const { return s()->Write(iso(), b, start, n, opt); }
    struct Utf8Value {
        realv8::String::Utf8Value u;
        template <class S> explicit Utf8Value(const Handle<S>& h) : u(iso(), static_cast<const oldv8::Value&>(h.t).v()) {}
        char* operator*() { return *u; }
        const char* operator*() const { return *u; }
        int length() const { return u.length(); }
    };
    typedef Utf8Value AsciiValue;
};
struct Object : Value {
    typedef realv8::Object N;
    realv8::Local<realv8::Object> o() const { return d.As<realv8::Object>(); }
    template <class S> Local<oldv8::Value> Get(const Handle<S>& k) const {
        oldv8::Value r; realv8::Local<realv8::Value> x;
        if (o()->Get(ctx(), static_cast<const oldv8::Value&>(k.t).v()).ToLocal(&x)) r.set(x);
        return r;
    }
    template <class K, class S> bool Set(const Handle<K>& k, const Handle<S>& x) const { return o()->Set(ctx(), k.t.v(), x.t.v()).FromMaybe(false); }
    template <class S> bool Set(uint32_t i, const Handle<S>& x) const { return o()->Set(ctx(), i, x.t.v()).FromMaybe(false); }
    Local<oldv8::Value> GetInternalField(int i) const { return wrap<oldv8::Value>(o()->GetInternalField(i).As<realv8::Value>()); }
    template <class S> void SetInternalField(int i, const Handle<S>& x) const { o()->SetInternalField(i, x.t.v()); }
    bool Has(const Handle<String>& k) const { return o()->Has(ctx(), k.t.s()).FromMaybe(false); }
    bool Has(uint32_t k) const { return o()->Has(ctx(), k).FromMaybe(false); }
    bool Delete(const Handle<String>& k) const { return o()->Delete(ctx(), k.t.s()).FromMaybe(false); }
    bool HasOwnProperty(const Handle<String>& k) const { return o()->HasOwnProperty(ctx(), k.t.s()).FromMaybe(false); }
    Local<oldv8::Value> Get(uint32_t i) const { oldv8::Value r; realv8::Local<realv8::Value> x; if (o()->Get(ctx(), i).ToLocal(&x)) r.set(x); return r; }
    int InternalFieldCount() const { return o()->InternalFieldCount(); }
    bool HasRealNamedProperty(const Handle<String>& k) const { return o()->HasRealNamedProperty(ctx(), k.t.s()).FromMaybe(false); }
    Local<oldv8::Value> GetRealNamedProperty(const Handle<String>& k) const {
        oldv8::Value r; realv8::Local<realv8::Value> x;
        if (o()->GetRealNamedProperty(ctx(), k.t.s()).ToLocal(&x)) r.set(x);
        return r;
    }
};
struct Array : Object {
    typedef realv8::Array N;
    static Local<Array> New(int n = 0) { return wrap<Array>(realv8::Array::New(iso(), n)); }
    uint32_t Length() const { return d.As<realv8::Array>()->Length(); }
};
struct Function : Object {
    typedef realv8::Function N;
    Local<oldv8::Value> Call(const Handle<Object>& self, int argc, Handle<oldv8::Value>* argv) const {
        std::vector<realv8::Local<realv8::Value> > a;
        for (int i = 0; i < argc; ++i) a.push_back(argv[i].t.v());
        oldv8::Value r; realv8::Local<realv8::Value> x;
        if (catching()) { // the exception goes to the TryCatch of the caller
            if (d.As<realv8::Function>()->Call(ctx(), self.t.v(), argc, a.data()).ToLocal(&x)) r.set(x);
        } else {          // without a TryCatch around it, V8 reported the exception and carried on
            realv8::TryCatch tc(iso());
            if (d.As<realv8::Function>()->Call(ctx(), self.t.v(), argc, a.data()).ToLocal(&x)) r.set(x);
        }
        return r;
    }
};
struct External : Value {
    typedef realv8::External N;
    static Local<External> New(void* p) { return wrap<External>(realv8::External::New(iso(), p)); }
    void* Value() const { return d.As<realv8::External>()->Value(); }
};
inline Local<Boolean> Value::ToBoolean() const { return wrap<Boolean>(v()->ToBoolean(iso())); }
inline Local<Number> Value::ToNumber() const { Number r; realv8::Local<realv8::Number> x; if (v()->ToNumber(ctx()).ToLocal(&x)) r.set(x); return r; }
inline Local<String> Value::ToString() const { String r; realv8::Local<realv8::String> x; if (v()->ToString(ctx()).ToLocal(&x)) r.set(x); return r; }
inline Local<Object> Value::ToObject() const { Object r; realv8::Local<realv8::Object> x; if (v()->ToObject(ctx()).ToLocal(&x)) r.set(x); return r; }
inline Handle<Primitive> Undefined() { return wrap<Primitive>(realv8::Undefined(iso())); }
inline Handle<Boolean> True() { return Boolean::New(true); }
inline Handle<Boolean> False() { return Boolean::New(false); }
inline Handle<Primitive> Null() { return wrap<Primitive>(realv8::Null(iso())); }
inline Local<Value> ThrowException(const Handle<Value>& e) { return wrap<Value>(iso()->ThrowException(e.t.v())); }
struct Exception {
    static Local<Value> Error(const Handle<String>& m) { return wrap<Value>(realv8::Exception::Error(m.t.s())); }
    static Local<Value> RangeError(const Handle<String>& m) { return wrap<Value>(realv8::Exception::RangeError(m.t.s())); }
    static Local<Value> TypeError(const Handle<String>& m) { return wrap<Value>(realv8::Exception::TypeError(m.t.s())); }
};

struct HandleScope {
    realv8::EscapableHandleScope s;
    HandleScope() : s(iso()) {}
    template <class S> Local<S> Close(const Handle<S>& h) { return wrap<S>(s.Escape(loc(h.t))); }
};

struct Arguments {
    const realv8::FunctionCallbackInfo<realv8::Value>& i;
    Arguments(const realv8::FunctionCallbackInfo<realv8::Value>& x) : i(x) {}
    int Length() const { return i.Length(); }
    Local<Value> operator[](int n) const { return wrap<Value>(i[n]); }
    Local<Object> Holder() const { return wrap<Object>(i.Holder()); }
    Local<Object> This() const { return wrap<Object>(i.This()); }
};
struct AccessorInfo {
    realv8::Local<realv8::Object> h;
    AccessorInfo(realv8::Local<realv8::Object> x) : h(x) {}
    Local<Object> Holder() const { return wrap<Object>(h); }
};
typedef Handle<Value> (*InvocationCallback)(const Arguments&);
typedef Handle<Value> (*AccessorGetter)(Local<String>, const AccessorInfo&);
typedef Handle<Value> (*IndexedGetter)(uint32_t, const AccessorInfo&);
typedef Handle<Array> (*Enumerator)(const AccessorInfo&);
struct Handlers { AccessorGetter named; IndexedGetter indexed; Enumerator all; };

template <class I> void give(const I& i, const Handle<Value>& r) { if (!r.IsEmpty()) i.GetReturnValue().Set(r.t.v()); }
template <class F> F data(const realv8::Local<realv8::Value>& d) { return reinterpret_cast<F>(d.As<realv8::External>()->Value()); }
inline void on_call(const realv8::FunctionCallbackInfo<realv8::Value>& i) { give(i, data<InvocationCallback>(i.Data())(Arguments(i))); }
inline void on_get(realv8::Local<realv8::Name> n, const realv8::PropertyCallbackInfo<realv8::Value>& i) {
    give(i, data<AccessorGetter>(i.Data())(wrap<String>(n.As<realv8::String>()), AccessorInfo(i.Holder())));
}

struct Template : Data { typedef realv8::Template N; };
struct FunctionTemplate : Template {
    typedef realv8::FunctionTemplate N;
    static Local<FunctionTemplate> New(InvocationCallback f) {
        return wrap<FunctionTemplate>(realv8::FunctionTemplate::New(iso(), on_call, realv8::External::New(iso(), reinterpret_cast<void*>(f))));
    }
};
struct ObjectTemplate : Template {
    typedef realv8::ObjectTemplate N;
    realv8::Local<realv8::ObjectTemplate> t() const { return d.As<realv8::ObjectTemplate>(); }
    static Local<ObjectTemplate> New() { return wrap<ObjectTemplate>(realv8::ObjectTemplate::New(iso())); }
    void SetInternalFieldCount(int n) const { t()->SetInternalFieldCount(n); }
    Local<Object> NewInstance() const { return wrap<Object>(t()->NewInstance(ctx()).ToLocalChecked()); }
    template <class S> void Set(const Handle<String>& k, const Handle<S>& x) const { t()->Set(k.t.s(), x.t.d); }
    template <class S> void Set(const char* k, const Handle<S>& x) const { Set(Handle<String>(String::NewSymbol(k)), x); }
    void SetAccessor(const Handle<String>& k, AccessorGetter f) const {
        t()->SetNativeDataProperty(k.t.s().As<realv8::Name>(), on_get, nullptr, realv8::External::New(iso(), reinterpret_cast<void*>(f)));
    }
    static void named(realv8::Local<realv8::Name> n, const realv8::PropertyCallbackInfo<realv8::Value>& i) {
        give(i, data<Handlers*>(i.Data())->named(wrap<String>(n.As<realv8::String>()), AccessorInfo(i.Holder())));
    }
    static void indexed(uint32_t n, const realv8::PropertyCallbackInfo<realv8::Value>& i) {
        give(i, data<Handlers*>(i.Data())->indexed(n, AccessorInfo(i.Holder())));
    }
    static void all(const realv8::PropertyCallbackInfo<realv8::Array>& i) {
        Handle<Array> r = data<Handlers*>(i.Data())->all(AccessorInfo(i.Holder()));
        if (!r.IsEmpty()) i.GetReturnValue().Set(r.t.d.As<realv8::Array>());
    }
    void SetNamedPropertyHandler(AccessorGetter g, void* = 0, void* = 0, void* = 0, Enumerator e = 0) const {
        Handlers* h = new Handlers(); h->named = g; h->all = e;
        t()->SetHandler(realv8::NamedPropertyHandlerConfiguration(named, nullptr, nullptr, nullptr, e ? all : nullptr, realv8::External::New(iso(), h),
                                                                 realv8::PropertyHandlerFlags::kOnlyInterceptStrings));
    }
    void SetIndexedPropertyHandler(IndexedGetter g, void* = 0, void* = 0, void* = 0, Enumerator e = 0) const {
        Handlers* h = new Handlers(); h->indexed = g; h->all = e;
        t()->SetHandler(realv8::IndexedPropertyHandlerConfiguration(indexed, nullptr, nullptr, nullptr, e ? all : nullptr, realv8::External::New(iso(), h)));
    }
};

struct Context : Data {
    typedef realv8::Context N;
    realv8::Local<realv8::Context> c() const { return d.As<realv8::Context>(); }
    static Local<Context> New(void* = 0, const Handle<ObjectTemplate>& t = Handle<ObjectTemplate>()) {
        return wrap<Context>(realv8::Context::New(iso(), nullptr, t.IsEmpty() ? realv8::MaybeLocal<realv8::ObjectTemplate>() : realv8::MaybeLocal<realv8::ObjectTemplate>(t.t.t())));
    }
    Local<Object> Global() const { return wrap<Object>(c()->Global()); }
    struct Scope {
        realv8::Context::Scope s;
        explicit Scope(const Handle<Context>& x) : s(x.t.c()) {}
    };
};
struct Message {
    realv8::Local<realv8::Message> m;
    bool empty() const { return m.IsEmpty(); }
    Handle<Value> GetScriptResourceName() const { return wrap<Value>(m->GetScriptResourceName()); }
    int GetLineNumber() const { return m->GetLineNumber(ctx()).FromMaybe(0); }
    Local<String> GetSourceLine() const { return wrap<String>(m->GetSourceLine(ctx()).FromMaybe(realv8::String::Empty(iso()))); }
    int GetStartColumn() const { return m->GetStartColumn(); }
    int GetEndColumn() const { return m->GetEndColumn(); }
};
struct TryCatch {
    realv8::TryCatch t;
    TryCatch() : t(iso()) { ++catching(); }
    ~TryCatch() { --catching(); }
    void Reset() { t.Reset(); }
    void SetVerbose(bool x) { t.SetVerbose(x); }
    Handle<Value> ReThrow() { return wrap<Value>(t.ReThrow()); }
    bool HasCaught() const { return t.HasCaught(); }
    Local<Value> Exception() const { return wrap<Value>(t.Exception()); }
    Handle<oldv8::Message> Message() const { oldv8::Message m; m.m = t.Message(); return m; }
};
struct Script {
    realv8::Local<realv8::Script> s;
    bool empty() const { return s.IsEmpty(); }
    static Local<Script> Compile(const Handle<String>& src, const Handle<Value>& name = Handle<Value>()) {
        Script r; realv8::MaybeLocal<realv8::Script> x;
        if (name.IsEmpty()) x = realv8::Script::Compile(ctx(), src.t.s());
        else { realv8::ScriptOrigin o(iso(), name.t.v()); x = realv8::Script::Compile(ctx(), src.t.s(), &o); }
        (void)x.ToLocal(&r.s);
        return r;
    }
    Local<Value> Run() const { Value r; realv8::Local<realv8::Value> x; if (s->Run(ctx()).ToLocal(&x)) r.set(x); return r; }
};
struct V8 { static bool IdleNotification(int = 1000) { return true; } };
} // namespace oldv8
#define v8 oldv8
#endif
