// The osmjs program, as it is, loaded into node (v8compat gives it the V8 interface it was written for).
#include <v8.h>
#include <string>
#include <vector>
extern int osmjs_program(int, char**) __asm__("main");   // osmjs.cpp is compiled beside this
static void run(const realv8::FunctionCallbackInfo<realv8::Value>& info) {
    realv8::Isolate* i = info.GetIsolate();
    realv8::Local<realv8::Context> c = i->GetCurrentContext();
    std::vector<std::string> args(1, "osmjs");
    realv8::Local<realv8::Array> a = info[0].As<realv8::Array>();
    for (uint32_t k = 0; k < a->Length(); ++k) args.push_back(*realv8::String::Utf8Value(i, a->Get(c, k).ToLocalChecked()));
    std::vector<char*> argv;
    for (size_t k = 0; k < args.size(); ++k) argv.push_back(&args[k][0]);
    argv.push_back(0);
    int rc = osmjs_program(int(args.size()), &argv[0]);
    exit(rc);
}
extern "C" NODE_MODULE_EXPORT void NODE_MODULE_INITIALIZER(realv8::Local<realv8::Object> exports, realv8::Local<realv8::Value>, realv8::Local<realv8::Context> c, void*) {
    realv8::Isolate* i = realv8::Isolate::GetCurrent();
    (void)exports->Set(c, realv8::String::NewFromUtf8Literal(i, "run"), realv8::Function::New(c, run).ToLocalChecked());
}
