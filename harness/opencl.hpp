/*
 * A stand-in for the OpenCL library with one platform and one device.
 * Sources of programs are compiled by clang as OpenCL C 1.2 and loaded into the process,
 * commands of a queue are executed when the host waits for them, threads follow device.hpp.
 */
#pragma once
#include "device.hpp"

#ifndef CL_TARGET_OPENCL_VERSION
#define CL_TARGET_OPENCL_VERSION 120
#endif
#include <CL/cl.h>

#include <sys/stat.h>
#include <sys/wait.h>

#include <memory>
#include <mutex>

namespace opencl
{

using device::Buffer;
using pbt::u64;

/* Directory for compiled programs, shared by workers. */
inline std::string& scratch()
{
    static std::string path;
    return path;
}

struct Parameter
{
    bool pointer = false;
    std::string type;
    size_t size = 0;
};
struct Function
{
    std::string name;
    std::vector<Parameter> parameters;
    void (*call)(void**) = nullptr;
};
struct Compiled
{
    bool ok = false;
    std::string log;
    std::map<std::string, Function> functions;
};

inline std::string read_file(const std::string& path)
{
    std::ifstream in(path, std::ios::binary);
    return {std::istreambuf_iterator<char>(in), {}};
}
inline void write_file(const std::string& path, const std::string& text)
{
    std::ofstream out(path, std::ios::binary);
    out << text;
    out.close();
    if (!out) pbt::harness_error("cannot write " + path);
}
/* Arguments of build options, as a shell splits them. */
inline std::string quoted(const std::string& options)
{
    std::string result;
    std::istringstream words(options);
    for (std::string word; words >> word;)
    {
        result += " '";
        for (char ch : word) result += ch == '\'' ? std::string{"'\\''"} : std::string{ch};
        result += "'";
    }
    return result;
}
inline int shell(const std::string& command)
{
    int status = std::system(command.c_str());
    return WIFEXITED(status) ? WEXITSTATUS(status) : 255;
}
constexpr const char* CLANG =
    "clang -x cl -target x86_64-unknown-linux-gnu -fPIC -O1 -Xclang -finclude-default-header -fsanitize=thread"
    " -ffp-contract=off -Wno-everything -Wno-unused-command-line-argument";

/* Signatures of kernels from the LLVM representation. */
inline bool parse_kernels(const std::string& ir, std::map<std::string, Function>& functions, std::string& problem)
{
    std::istringstream lines(ir);
    for (std::string line; std::getline(lines, line);)
    {
        if (line.rfind("define ", 0) != 0 || line.find("spir_kernel") == std::string::npos) continue;
        size_t at = line.find('@');
        size_t open = line.find('(', at);
        Function f;
        f.name = line.substr(at + 1, open - at - 1);
        int depth = 0;
        std::string current;
        std::vector<std::string> parts;
        for (size_t i = open; i < line.size(); ++i)
        {
            char ch = line[i];
            if (ch == '(' && depth++ == 0) continue;
            if (ch == ')' && --depth == 0) break;
            if (ch == ',' && depth == 1) { parts.push_back(current); current.clear(); }
            else current += ch;
        }
        if (!current.empty()) parts.push_back(current);
        for (auto& part : parts)
        {
            std::istringstream words(part);
            std::string type;
            words >> type;
            Parameter p;
            bool local = part.find("addrspace") != std::string::npos;
            if (type == "ptr" && !local) { p.pointer = true; p.type = "void*"; p.size = 8; }
            else if (type == "i64") { p.type = "unsigned long"; p.size = 8; }
            else if (type == "i32") { p.type = "unsigned"; p.size = 4; }
            else if (type == "i16") { p.type = "unsigned short"; p.size = 2; }
            else if (type == "i8") { p.type = "unsigned char"; p.size = 1; }
            else if (type == "float") { p.type = "float"; p.size = 4; }
            else if (type == "double") { p.type = "double"; p.size = 8; }
            else { problem = "parameter of a kernel: " + part; return false; }
            f.parameters.push_back(p);
        }
        functions[f.name] = f;
    }
    return true;
}

/* Whether sources of the repository are OpenCL C at all; if they are not, nothing can be said about what the device does. */
inline bool sources_compile(const std::string& output)
{
    std::string source;
    for (const char* name : {"constraint_graph.cpp", "lowest_penalties.cpp", "labeling_finder.cpp", "disparity_graph.cpp", "image.cpp", "indexing_checks.cpp", "indexing.cpp", "solve_csp.cl"})
        source += read_file(std::string{"lib/"} + name);
    write_file(output + ".all.cl", source);
    const bool result = shell(std::string{CLANG} + " -cl-std=CL1.2 -I ./include " + output + ".all.cl -S -emit-llvm -o " + output + ".all.ll > " + output + ".all.log 2>&1") == 0;
    for (const char* suffix : {".all.cl", ".all.ll", ".all.log"}) std::remove((output + suffix).c_str());
    return result;
}

inline Compiled build(const std::string& source, const std::string& options)
{
    static std::map<std::string, Compiled> cache;
    std::string key = pbt::str(std::hash<std::string>{}(source + "\n//" + options));
    auto known = cache.find(key);
    if (known != cache.end()) return known->second;
    Compiled result;
    std::string base = scratch() + "/program-" + key;
    std::string status = read_file(base + ".status");
    if (status.empty())
    {
        std::string mine = pbt::str(base, ".", getpid());
        write_file(mine + ".cl", source);
        std::string command = std::string{CLANG} + quoted(options) + " " + mine + ".cl";
        if (shell(command + " -S -emit-llvm -o " + mine + ".ll > " + mine + ".log 2>&1") != 0)
        {
            if (!sources_compile(mine)) pbt::unsupported("sources are not OpenCL C: " + read_file(mine + ".log"));
            std::rename((mine + ".log").c_str(), (base + ".log").c_str());
            status = "failed";
        }
        else
        {
            std::map<std::string, Function> functions;
            std::string problem;
            if (!parse_kernels(read_file(mine + ".ll"), functions, problem)) pbt::unsupported(problem);
            std::string wrappers;
            for (auto& [name, f] : functions)
            {
                std::string types, values;
                for (size_t i = 0; i < f.parameters.size(); ++i)
                {
                    types += (i ? ", " : "") + f.parameters[i].type;
                    values += (i ? ", " : "") + pbt::str("*(", f.parameters[i].type, "*)a[", i, "]");
                }
                wrappers += "extern void " + name + "(" + types + ");\n"
                    "void pbt_call_" + name + "(void** a) { " + name + "(" + values + "); }\n";
            }
            write_file(mine + ".c", wrappers);
            if (shell(command + " -c -o " + mine + ".o > " + mine + ".log 2>&1") != 0
                || shell("clang -O1 -fPIC -w -c " + mine + ".c -o " + mine + ".w.o >> " + mine + ".log 2>&1") != 0
                || shell("clang -shared -Wl,-Bsymbolic " + mine + ".o " + mine + ".w.o -o " + mine + ".so >> " + mine + ".log 2>&1") != 0)
                pbt::unsupported("build of wrappers: " + read_file(mine + ".log"));
            std::rename((mine + ".ll").c_str(), (base + ".ll").c_str());
            std::rename((mine + ".so").c_str(), (base + ".so").c_str());
            status = "built";
        }
        write_file(mine + ".status", status);
        std::rename((mine + ".status").c_str(), (base + ".status").c_str());
        for (const char* suffix : {".cl", ".c", ".o", ".w.o", ".log", ".ll"}) std::remove((mine + suffix).c_str());
    }
    if (status == "built")
    {
        std::string problem;
        parse_kernels(read_file(base + ".ll"), result.functions, problem);
        void* module = dlopen((base + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!module) pbt::unsupported(dlerror());
        for (auto& [name, f] : result.functions)
        {
            f.call = reinterpret_cast<void (*)(void**)>(dlsym(module, ("pbt_call_" + name).c_str()));
            if (!f.call) pbt::unsupported("kernel " + name);
        }
        result.ok = true;
    }
    else result.log = read_file(base + ".log");
    cache[key] = result;
    return result;
}

/* Objects with counters of references. */
/* The code of an error, usual or generated. */
inline cl_int fault(cl_int usual) { return device::state().fault_code ? device::state().fault_code : usual; }
struct Counted
{
    int references = 1;
    virtual ~Counted() = default;
};
template <class T> cl_int retain(T* object)
{
    if (!object) return CL_INVALID_VALUE;
    ++object->references;
    return CL_SUCCESS;
}
template <class T> cl_int release(T* object)
{
    if (!object) return CL_INVALID_VALUE;
    if (--object->references == 0) delete object;
    return CL_SUCCESS;
}

struct Live { long contexts = 0, queues = 0, memory = 0, programs = 0, kernels = 0, events = 0; };
inline Live& live()
{
    static Live l;
    return l;
}
}

struct _cl_platform_id {};
struct _cl_device_id {};
struct _cl_context : opencl::Counted
{
    _cl_context() { ++opencl::live().contexts; }
    ~_cl_context() override { --opencl::live().contexts; }
};
struct _cl_mem : opencl::Counted
{
    opencl::Buffer buffer;
    cl_mem_flags flags = 0;
    cl_context context = nullptr;
    _cl_mem() { ++opencl::live().memory; }
    ~_cl_mem() override
    {
        --opencl::live().memory;
        device::release(buffer.data);
    }
};
struct _cl_event;
struct _cl_command_queue : opencl::Counted
{
    struct Command
    {
        std::function<void()> action;
        _cl_event* event;
    };
    std::vector<Command> pending;
    cl_context context = nullptr;
    cl_command_queue_properties properties = 0;
    _cl_command_queue() { ++opencl::live().queues; }
    ~_cl_command_queue() override { --opencl::live().queues; }
    void drain();
};
struct _cl_event : opencl::Counted
{
    cl_command_queue queue = nullptr;
    bool complete = false;
    _cl_event() { ++opencl::live().events; }
    ~_cl_event() override { --opencl::live().events; }
};
struct _cl_program : opencl::Counted
{
    std::string source, options;
    opencl::Compiled compiled;
    cl_context context = nullptr;
    bool built = false;
    _cl_program() { ++opencl::live().programs; }
    ~_cl_program() override { --opencl::live().programs; }
};
struct _cl_kernel : opencl::Counted
{
    opencl::Function function;
    cl_program program = nullptr;
    std::vector<std::vector<char>> values;
    std::vector<bool> set;
    _cl_kernel() { ++opencl::live().kernels; }
    ~_cl_kernel() override
    {
        --opencl::live().kernels;
        opencl::release(program);
    }
};
inline void _cl_command_queue::drain()
{
    while (!pending.empty())
    {
        Command command = std::move(pending.front());
        pending.erase(pending.begin());
        if (command.action) command.action();
        if (command.event)
        {
            command.event->complete = true;
            opencl::release(command.event);
        }
    }
}

namespace opencl
{
inline _cl_platform_id the_platform;
inline _cl_device_id the_device;

inline cl_int answer(const void* data, size_t size, size_t room, void* out, size_t* needed)
{
    if (needed) *needed = size;
    if (out)
    {
        if (room < size) return CL_INVALID_VALUE;
        std::memcpy(out, data, size);
    }
    return CL_SUCCESS;
}
inline cl_int answer(const std::string& text, size_t room, void* out, size_t* needed)
{
    return answer(text.c_str(), text.size() + 1, room, out, needed);
}
template <class T> cl_int answer_value(T value, size_t room, void* out, size_t* needed)
{
    return answer(&value, sizeof value, room, out, needed);
}
inline cl_int enqueue(cl_command_queue queue, cl_uint waits, const cl_event* wait_list, cl_event* event, std::function<void()> action)
{
    for (cl_uint i = 0; i < waits; ++i)
        if (!wait_list[i]->complete && wait_list[i]->queue != queue) wait_list[i]->queue->drain();
    cl_event created = nullptr;
    if (event)
    {
        created = new _cl_event;
        created->queue = queue;
        created->references = 2;
        *event = created;
    }
    queue->pending.push_back({std::move(action), created});
    return CL_SUCCESS;
}
inline bool within(const _cl_mem* memory, size_t offset, size_t size)
{
    return size <= memory->buffer.size && offset <= memory->buffer.size - size;
}
inline cl_int launch(cl_command_queue queue, cl_kernel kernel, size_t groups, size_t group_size, size_t offset,
                     cl_uint waits, const cl_event* wait_list, cl_event* event)
{
    for (bool set : kernel->set)
        if (!set) return CL_INVALID_KERNEL_ARGS;
    auto values = std::make_shared<std::vector<std::vector<char>>>(kernel->values);
    std::vector<cl_mem> used;
    for (size_t i = 0; i < values->size(); ++i)
        if (kernel->function.parameters[i].pointer)
        {
            cl_mem memory;
            std::memcpy(&memory, (*values)[i].data(), sizeof memory);
            used.push_back(memory);
            if (memory) retain(memory);
        }
    retain(kernel);
    return enqueue(queue, waits, wait_list, event, [=] {
        std::vector<Buffer> accessible;
        std::vector<void*> arguments;
        std::vector<void*> addresses(values->size());
        size_t pointer = 0;
        for (size_t i = 0; i < values->size(); ++i)
            if (kernel->function.parameters[i].pointer)
            {
                cl_mem memory = used[pointer++];
                addresses[i] = memory ? memory->buffer.data : nullptr;
                if (memory) accessible.push_back(memory->buffer);
                arguments.push_back(&addresses[i]);
            }
            else arguments.push_back((*values)[i].data());
        auto call = kernel->function.call;
        device::launch(kernel->function.name, groups, group_size, offset, accessible, [&arguments, call] { call(arguments.data()); });
        for (cl_mem memory : used)
            if (memory) release(memory);
        release(kernel);
    });
}
}

extern "C"
{
using opencl::answer;
using opencl::answer_value;

cl_int clGetPlatformIDs(cl_uint room, cl_platform_id* platforms, cl_uint* number)
{
    if (device::fails("clGetPlatformIDs"))
    {
        if (number) *number = 0;
        return opencl::fault(CL_OUT_OF_HOST_MEMORY);
    }
    if (platforms && room > 0) platforms[0] = &opencl::the_platform;
    if (number) *number = 1;
    return CL_SUCCESS;
}
cl_int clGetPlatformInfo(cl_platform_id, cl_platform_info what, size_t room, void* out, size_t* needed)
{
    switch (what)
    {
        case CL_PLATFORM_PROFILE: return answer(std::string{"FULL_PROFILE"}, room, out, needed);
        case CL_PLATFORM_VERSION: return answer(std::string{"OpenCL 1.2 stand-in"}, room, out, needed);
        case CL_PLATFORM_EXTENSIONS: return answer(std::string{}, room, out, needed);
        default: return answer(std::string{"stand-in"}, room, out, needed);
    }
}
cl_int clGetDeviceIDs(cl_platform_id, cl_device_type, cl_uint room, cl_device_id* devices, cl_uint* number)
{
    if (device::fails("clGetDeviceIDs"))
    {
        if (number) *number = 0;
        return opencl::fault(CL_DEVICE_NOT_FOUND);
    }
    if (devices && room > 0) devices[0] = &opencl::the_device;
    if (number) *number = 1;
    return CL_SUCCESS;
}
cl_int clGetDeviceInfo(cl_device_id, cl_device_info what, size_t room, void* out, size_t* needed)
{
    switch (what)
    {
        case CL_DEVICE_TYPE: return answer_value<cl_device_type>(CL_DEVICE_TYPE_GPU, room, out, needed);
        case CL_DEVICE_PLATFORM: return answer_value<cl_platform_id>(&opencl::the_platform, room, out, needed);
        case CL_DEVICE_VERSION: return answer(std::string{"OpenCL 1.2 stand-in"}, room, out, needed);
        case CL_DEVICE_OPENCL_C_VERSION: return answer(std::string{"OpenCL C 1.2 stand-in"}, room, out, needed);
        case CL_DEVICE_PROFILE: return answer(std::string{"FULL_PROFILE"}, room, out, needed);
        case CL_DEVICE_EXTENSIONS: return answer(std::string{}, room, out, needed);
        case CL_DEVICE_NAME: case CL_DEVICE_VENDOR: case CL_DRIVER_VERSION: return answer(std::string{"stand-in"}, room, out, needed);
        case CL_DEVICE_MAX_WORK_GROUP_SIZE: return answer_value<size_t>(256, room, out, needed);
        case CL_DEVICE_MAX_COMPUTE_UNITS: return answer_value<cl_uint>(4, room, out, needed);
        case CL_DEVICE_MAX_WORK_ITEM_DIMENSIONS: return answer_value<cl_uint>(3, room, out, needed);
        case CL_DEVICE_GLOBAL_MEM_SIZE: case CL_DEVICE_MAX_MEM_ALLOC_SIZE: return answer_value<cl_ulong>(1ul << 30, room, out, needed);
        case CL_DEVICE_LOCAL_MEM_SIZE: return answer_value<cl_ulong>(32768, room, out, needed);
        case CL_DEVICE_PARENT_DEVICE: return answer_value<cl_device_id>(nullptr, room, out, needed);
        case CL_DEVICE_ADDRESS_BITS: return answer_value<cl_uint>(64, room, out, needed);
        case CL_DEVICE_MEM_BASE_ADDR_ALIGN: return answer_value<cl_uint>(1024, room, out, needed);
        default: return answer_value<cl_uint>(1, room, out, needed);
    }
}
cl_int clRetainDevice(cl_device_id) { return CL_SUCCESS; }
cl_int clReleaseDevice(cl_device_id) { return CL_SUCCESS; }

cl_context clCreateContext(const cl_context_properties*, cl_uint, const cl_device_id*, void (CL_CALLBACK*)(const char*, const void*, size_t, void*), void*, cl_int* error)
{
    if (device::fails("clCreateContext"))
    {
        if (error) *error = opencl::fault(CL_OUT_OF_HOST_MEMORY);
        return nullptr;
    }
    if (error) *error = CL_SUCCESS;
    return new _cl_context;
}
cl_int clGetContextInfo(cl_context c, cl_context_info what, size_t room, void* out, size_t* needed)
{
    switch (what)
    {
        case CL_CONTEXT_DEVICES: return answer_value<cl_device_id>(&opencl::the_device, room, out, needed);
        case CL_CONTEXT_NUM_DEVICES: return answer_value<cl_uint>(1, room, out, needed);
        case CL_CONTEXT_REFERENCE_COUNT: return answer_value<cl_uint>(static_cast<cl_uint>(c->references), room, out, needed);
        default: return CL_INVALID_VALUE;
    }
}
cl_int clRetainContext(cl_context c) { return opencl::retain(c); }
cl_int clReleaseContext(cl_context c) { return opencl::release(c); }

cl_command_queue clCreateCommandQueue(cl_context context, cl_device_id, cl_command_queue_properties properties, cl_int* error)
{
    if (device::fails("clCreateCommandQueue"))
    {
        if (error) *error = opencl::fault(CL_OUT_OF_RESOURCES);
        return nullptr;
    }
    auto* queue = new _cl_command_queue;
    queue->context = context;
    queue->properties = properties;
    if (error) *error = CL_SUCCESS;
    return queue;
}
cl_int clGetCommandQueueInfo(cl_command_queue queue, cl_command_queue_info what, size_t room, void* out, size_t* needed)
{
    switch (what)
    {
        case CL_QUEUE_CONTEXT: return answer_value<cl_context>(queue->context, room, out, needed);
        case CL_QUEUE_DEVICE: return answer_value<cl_device_id>(&opencl::the_device, room, out, needed);
        case CL_QUEUE_PROPERTIES: return answer_value(queue->properties, room, out, needed);
        default: return CL_INVALID_VALUE;
    }
}
cl_int clRetainCommandQueue(cl_command_queue q) { return opencl::retain(q); }
cl_int clReleaseCommandQueue(cl_command_queue q)
{
    if (q && q->references == 1) q->drain();
    return opencl::release(q);
}
cl_int clFlush(cl_command_queue) { return CL_SUCCESS; }
cl_int clFinish(cl_command_queue queue)
{
    queue->drain();
    return device::state().lost ? opencl::fault(CL_OUT_OF_RESOURCES) : CL_SUCCESS;
}

cl_int clWaitForEvents(cl_uint number, const cl_event* events)
{
    for (cl_uint i = 0; i < number; ++i)
        if (!events[i]->complete) events[i]->queue->drain();
    return device::state().lost ? CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST : CL_SUCCESS;
}
cl_int clGetEventInfo(cl_event event, cl_event_info what, size_t room, void* out, size_t* needed)
{
    switch (what)
    {
        case CL_EVENT_COMMAND_QUEUE: return answer_value<cl_command_queue>(event->queue, room, out, needed);
        case CL_EVENT_CONTEXT: return answer_value<cl_context>(event->queue->context, room, out, needed);
        case CL_EVENT_COMMAND_EXECUTION_STATUS: return answer_value<cl_int>(event->complete ? CL_COMPLETE : CL_QUEUED, room, out, needed);
        default: return CL_INVALID_VALUE;
    }
}
cl_int clRetainEvent(cl_event e) { return opencl::retain(e); }
cl_int clReleaseEvent(cl_event e) { return opencl::release(e); }

cl_mem clCreateBuffer(cl_context context, cl_mem_flags flags, size_t size, void* host, cl_int* error)
{
    if (device::fails("clCreateBuffer"))
    {
        if (error) *error = opencl::fault(CL_MEM_OBJECT_ALLOCATION_FAILURE);
        return nullptr;
    }
    if (size == 0)
    {
        if (error) *error = CL_INVALID_BUFFER_SIZE;
        return nullptr;
    }
    auto* memory = new _cl_mem;
    memory->context = context;
    memory->flags = flags;
    memory->buffer = device::allocate(size);
    if (host && (flags & (CL_MEM_COPY_HOST_PTR | CL_MEM_USE_HOST_PTR))) std::memcpy(memory->buffer.data, host, size);
    if (error) *error = CL_SUCCESS;
    return memory;
}
cl_int clGetMemObjectInfo(cl_mem memory, cl_mem_info what, size_t room, void* out, size_t* needed)
{
    switch (what)
    {
        case CL_MEM_SIZE: return answer_value(memory->buffer.size, room, out, needed);
        case CL_MEM_CONTEXT: return answer_value<cl_context>(memory->context, room, out, needed);
        case CL_MEM_FLAGS: return answer_value(memory->flags, room, out, needed);
        case CL_MEM_TYPE: return answer_value<cl_mem_object_type>(CL_MEM_OBJECT_BUFFER, room, out, needed);
        case CL_MEM_OFFSET: return answer_value<size_t>(0, room, out, needed);
        case CL_MEM_HOST_PTR: return answer_value<void*>(nullptr, room, out, needed);
        default: return CL_INVALID_VALUE;
    }
}
cl_int clRetainMemObject(cl_mem m) { return opencl::retain(m); }
cl_int clReleaseMemObject(cl_mem m) { return opencl::release(m); }

cl_int clEnqueueReadBuffer(cl_command_queue queue, cl_mem memory, cl_bool blocking, size_t offset, size_t size, void* to, cl_uint waits, const cl_event* list, cl_event* event)
{
    if (device::fails("clEnqueueReadBuffer")) return opencl::fault(CL_OUT_OF_RESOURCES);
    if (!opencl::within(memory, offset, size)) return CL_INVALID_VALUE;
    opencl::retain(memory);
    opencl::enqueue(queue, waits, list, event, [=] {
        if (!device::state().lost) std::memcpy(to, memory->buffer.data + offset, size);
        opencl::release(memory);
    });
    if (blocking) queue->drain();
    return device::state().lost ? opencl::fault(CL_OUT_OF_RESOURCES) : CL_SUCCESS;
}
cl_int clEnqueueWriteBuffer(cl_command_queue queue, cl_mem memory, cl_bool blocking, size_t offset, size_t size, const void* from, cl_uint waits, const cl_event* list, cl_event* event)
{
    if (device::fails("clEnqueueWriteBuffer")) return opencl::fault(CL_OUT_OF_RESOURCES);
    if (!opencl::within(memory, offset, size)) return CL_INVALID_VALUE;
    opencl::retain(memory);
    opencl::enqueue(queue, waits, list, event, [=] {
        if (!device::state().lost) std::memcpy(memory->buffer.data + offset, from, size);
        opencl::release(memory);
    });
    if (blocking) queue->drain();
    return device::state().lost ? opencl::fault(CL_OUT_OF_RESOURCES) : CL_SUCCESS;
}
cl_int clEnqueueCopyBuffer(cl_command_queue queue, cl_mem from, cl_mem to, size_t from_offset, size_t to_offset, size_t size, cl_uint waits, const cl_event* list, cl_event* event)
{
    if (device::fails("clEnqueueCopyBuffer")) return opencl::fault(CL_OUT_OF_RESOURCES);
    if (!opencl::within(from, from_offset, size) || !opencl::within(to, to_offset, size)) return CL_INVALID_VALUE;
    opencl::retain(from);
    opencl::retain(to);
    return opencl::enqueue(queue, waits, list, event, [=] {
        std::memmove(to->buffer.data + to_offset, from->buffer.data + from_offset, size);
        opencl::release(from);
        opencl::release(to);
    });
}
cl_int clEnqueueFillBuffer(cl_command_queue queue, cl_mem memory, const void* pattern, size_t pattern_size, size_t offset, size_t size, cl_uint waits, const cl_event* list, cl_event* event)
{
    if (device::fails("clEnqueueFillBuffer")) return opencl::fault(CL_OUT_OF_RESOURCES);
    if (!pattern_size || size % pattern_size || offset % pattern_size || !opencl::within(memory, offset, size)) return CL_INVALID_VALUE;
    opencl::retain(memory);
    std::string copy(static_cast<const char*>(pattern), pattern_size);
    return opencl::enqueue(queue, waits, list, event, [=] {
        for (size_t i = 0; i < size; i += pattern_size) std::memcpy(memory->buffer.data + offset + i, copy.data(), pattern_size);
        opencl::release(memory);
    });
}
void* clEnqueueMapBuffer(cl_command_queue queue, cl_mem memory, cl_bool blocking, cl_map_flags, size_t offset, size_t size, cl_uint waits, const cl_event* list, cl_event* event, cl_int* error)
{
    if (device::fails("clEnqueueMapBuffer"))
    {
        if (error) *error = opencl::fault(CL_MAP_FAILURE);
        return nullptr;
    }
    if (!opencl::within(memory, offset, size))
    {
        if (error) *error = CL_INVALID_VALUE;
        return nullptr;
    }
    opencl::retain(memory);
    opencl::enqueue(queue, waits, list, event, nullptr);
    if (blocking) queue->drain();
    if (device::state().lost)
    {
        if (error) *error = CL_MAP_FAILURE;
        return nullptr;
    }
    if (error) *error = CL_SUCCESS;
    return memory->buffer.data + offset;
}
cl_int clEnqueueUnmapMemObject(cl_command_queue queue, cl_mem memory, void*, cl_uint waits, const cl_event* list, cl_event* event)
{
    if (device::fails("clEnqueueUnmapMemObject")) return opencl::fault(CL_OUT_OF_RESOURCES);
    return opencl::enqueue(queue, waits, list, event, [=] { opencl::release(memory); });
}
cl_int clEnqueueMarker(cl_command_queue queue, cl_event* event) { return opencl::enqueue(queue, 0, nullptr, event, nullptr); }
cl_int clEnqueueMarkerWithWaitList(cl_command_queue queue, cl_uint n, const cl_event* list, cl_event* event) { return opencl::enqueue(queue, n, list, event, nullptr); }
cl_int clEnqueueBarrier(cl_command_queue queue) { return opencl::enqueue(queue, 0, nullptr, nullptr, nullptr); }
cl_int clEnqueueBarrierWithWaitList(cl_command_queue queue, cl_uint n, const cl_event* list, cl_event* event) { return opencl::enqueue(queue, n, list, event, nullptr); }

cl_program clCreateProgramWithSource(cl_context context, cl_uint number, const char** strings, const size_t* lengths, cl_int* error)
{
    if (device::fails("clCreateProgramWithSource"))
    {
        if (error) *error = opencl::fault(CL_OUT_OF_HOST_MEMORY);
        return nullptr;
    }
    auto* program = new _cl_program;
    program->context = context;
    for (cl_uint i = 0; i < number; ++i)
        program->source += lengths && lengths[i] ? std::string(strings[i], lengths[i]) : std::string(strings[i]);
    if (error) *error = CL_SUCCESS;
    return program;
}
cl_int clBuildProgram(cl_program program, cl_uint, const cl_device_id*, const char* options, void (CL_CALLBACK*)(cl_program, void*), void*)
{
    if (device::fails("clBuildProgram")) return opencl::fault(CL_OUT_OF_RESOURCES);
    program->options = options ? options : "";
    program->compiled = opencl::build(program->source, program->options);
    program->built = program->compiled.ok;
    return program->built ? CL_SUCCESS : CL_BUILD_PROGRAM_FAILURE;
}
cl_int clGetProgramBuildInfo(cl_program program, cl_device_id, cl_program_build_info what, size_t room, void* out, size_t* needed)
{
    switch (what)
    {
        case CL_PROGRAM_BUILD_STATUS: return answer_value<cl_build_status>(program->built ? CL_BUILD_SUCCESS : CL_BUILD_ERROR, room, out, needed);
        case CL_PROGRAM_BUILD_OPTIONS: return answer(program->options, room, out, needed);
        case CL_PROGRAM_BUILD_LOG: return answer(program->compiled.log, room, out, needed);
        default: return CL_INVALID_VALUE;
    }
}
cl_int clGetProgramInfo(cl_program program, cl_program_info what, size_t room, void* out, size_t* needed)
{
    switch (what)
    {
        case CL_PROGRAM_CONTEXT: return answer_value<cl_context>(program->context, room, out, needed);
        case CL_PROGRAM_DEVICES: return answer_value<cl_device_id>(&opencl::the_device, room, out, needed);
        case CL_PROGRAM_NUM_DEVICES: return answer_value<cl_uint>(1, room, out, needed);
        case CL_PROGRAM_SOURCE: return answer(program->source, room, out, needed);
        default: return CL_INVALID_VALUE;
    }
}
cl_int clRetainProgram(cl_program p) { return opencl::retain(p); }
cl_int clReleaseProgram(cl_program p) { return opencl::release(p); }

cl_kernel clCreateKernel(cl_program program, const char* name, cl_int* error)
{
    if (device::fails("clCreateKernel"))
    {
        if (error) *error = opencl::fault(CL_OUT_OF_RESOURCES);
        return nullptr;
    }
    auto found = program->compiled.functions.find(name);
    if (!program->built || found == program->compiled.functions.end())
    {
        if (error) *error = program->built ? CL_INVALID_KERNEL_NAME : CL_INVALID_PROGRAM_EXECUTABLE;
        return nullptr;
    }
    auto* kernel = new _cl_kernel;
    kernel->function = found->second;
    kernel->values.resize(kernel->function.parameters.size());
    kernel->set.resize(kernel->values.size(), false);
    kernel->program = program;
    opencl::retain(program);
    if (error) *error = CL_SUCCESS;
    return kernel;
}
cl_int clGetKernelInfo(cl_kernel kernel, cl_kernel_info what, size_t room, void* out, size_t* needed)
{
    if (device::fails("clGetKernelInfo")) return opencl::fault(CL_OUT_OF_RESOURCES);
    switch (what)
    {
        case CL_KERNEL_NUM_ARGS: return answer_value<cl_uint>(static_cast<cl_uint>(kernel->values.size()), room, out, needed);
        case CL_KERNEL_FUNCTION_NAME: return answer(kernel->function.name, room, out, needed);
        case CL_KERNEL_PROGRAM: return answer_value<cl_program>(kernel->program, room, out, needed);
        case CL_KERNEL_CONTEXT: return answer_value<cl_context>(kernel->program->context, room, out, needed);
        default: return CL_INVALID_VALUE;
    }
}
cl_int clGetKernelWorkGroupInfo(cl_kernel, cl_device_id, cl_kernel_work_group_info what, size_t room, void* out, size_t* needed)
{
    switch (what)
    {
        case CL_KERNEL_WORK_GROUP_SIZE: return answer_value<size_t>(256, room, out, needed);
        case CL_KERNEL_PREFERRED_WORK_GROUP_SIZE_MULTIPLE: return answer_value<size_t>(8, room, out, needed);
        case CL_KERNEL_LOCAL_MEM_SIZE: case CL_KERNEL_PRIVATE_MEM_SIZE: return answer_value<cl_ulong>(0, room, out, needed);
        default: return CL_INVALID_VALUE;
    }
}
cl_int clSetKernelArg(cl_kernel kernel, cl_uint index, size_t size, const void* value)
{
    if (device::fails("clSetKernelArg")) return opencl::fault(CL_OUT_OF_RESOURCES);
    if (index >= kernel->values.size()) return CL_INVALID_ARG_INDEX;
    const auto& parameter = kernel->function.parameters[index];
    if (size != parameter.size) return CL_INVALID_ARG_SIZE;
    if (!value && !parameter.pointer) return CL_INVALID_ARG_VALUE;
    std::vector<char> bytes(size, 0);
    if (value) std::memcpy(bytes.data(), value, size);
    kernel->values[index] = bytes;
    kernel->set[index] = true;
    return CL_SUCCESS;
}
cl_int clRetainKernel(cl_kernel k) { return opencl::retain(k); }
cl_int clReleaseKernel(cl_kernel k) { return opencl::release(k); }

cl_int clEnqueueNDRangeKernel(cl_command_queue queue, cl_kernel kernel, cl_uint dimensions, const size_t* offset, const size_t* global, const size_t* local, cl_uint waits, const cl_event* list, cl_event* event)
{
    if (device::fails("clEnqueueNDRangeKernel")) return opencl::fault(CL_OUT_OF_RESOURCES);
    if (dimensions != 1) pbt::unsupported("kernels of several dimensions");
    if (global[0] == 0) return CL_INVALID_GLOBAL_WORK_SIZE;
    size_t group = local ? local[0] : 0;
    if (local && (group == 0 || global[0] % group != 0)) return CL_INVALID_WORK_GROUP_SIZE;
    if (group > 256) return CL_INVALID_WORK_GROUP_SIZE;
    if (!local)
    {
        // The device chooses the size of groups.
        std::vector<size_t> divisors;
        for (size_t d = 1; d <= global[0] && d <= 256; ++d)
            if (global[0] % d == 0) divisors.push_back(d);
        group = divisors[pbt::mix(device::state().policy.seed + device::state().launches) % divisors.size()];
    }
    return opencl::launch(queue, kernel, global[0] / group, group, offset ? offset[0] : 0, waits, list, event);
}
cl_int clEnqueueTask(cl_command_queue queue, cl_kernel kernel, cl_uint waits, const cl_event* list, cl_event* event)
{
    if (device::fails("clEnqueueTask")) return opencl::fault(CL_OUT_OF_RESOURCES);
    return opencl::launch(queue, kernel, 1, 1, 0, waits, list, event);
}
}

/* ---------- Functions of the OpenCL C library ---------- */

#define BUILTIN(result, mangled, ...) extern "C" result mangled(__VA_ARGS__)
BUILTIN(size_t, _Z13get_global_idj, unsigned d)
{
    auto& t = device::thread();
    return d ? 0 : device::state().offset + t.group * device::state().group_size + t.local;
}
BUILTIN(size_t, _Z12get_local_idj, unsigned d) { return d ? 0 : device::thread().local; }
BUILTIN(size_t, _Z12get_group_idj, unsigned d) { return d ? 0 : device::thread().group; }
BUILTIN(size_t, _Z15get_global_sizej, unsigned d) { return d ? 1 : device::state().threads.size(); }
BUILTIN(size_t, _Z14get_local_sizej, unsigned d) { return d ? 1 : device::state().group_size; }
BUILTIN(size_t, _Z14get_num_groupsj, unsigned d) { return d ? 1 : device::state().groups; }
BUILTIN(size_t, _Z17get_global_offsetj, unsigned d) { return d ? 0 : device::state().offset; }
BUILTIN(unsigned, _Z12get_work_dimv) { return 1; }
BUILTIN(void, _Z7barrierj, unsigned) { device::group_barrier(); }
BUILTIN(void, _Z9mem_fencej, unsigned) {}
BUILTIN(void, _Z14read_mem_fencej, unsigned) {}
BUILTIN(void, _Z15write_mem_fencej, unsigned) {}

#define CONVERSIONS(name, to) \
    BUILTIN(to, _Z##name##c, char v) { return static_cast<to>(v); } \
    BUILTIN(to, _Z##name##h, unsigned char v) { return static_cast<to>(v); } \
    BUILTIN(to, _Z##name##s, short v) { return static_cast<to>(v); } \
    BUILTIN(to, _Z##name##t, unsigned short v) { return static_cast<to>(v); } \
    BUILTIN(to, _Z##name##i, int v) { return static_cast<to>(v); } \
    BUILTIN(to, _Z##name##j, unsigned v) { return static_cast<to>(v); } \
    BUILTIN(to, _Z##name##l, long v) { return static_cast<to>(v); } \
    BUILTIN(to, _Z##name##m, unsigned long v) { return static_cast<to>(v); } \
    BUILTIN(to, _Z##name##f, float v) { return static_cast<to>(v); }
CONVERSIONS(13convert_float, float)
CONVERSIONS(11convert_int, int)
CONVERSIONS(12convert_uint, unsigned)
CONVERSIONS(12convert_long, long)
CONVERSIONS(13convert_ulong, unsigned long)
#define COMPARED(suffix, type) \
    BUILTIN(type, _Z3min##suffix##suffix, type a, type b) { return b < a ? b : a; } \
    BUILTIN(type, _Z3max##suffix##suffix, type a, type b) { return a < b ? b : a; } \
    BUILTIN(type, _Z5clamp##suffix##suffix##suffix, type v, type a, type b) { v = v < a ? a : v; return b < v ? b : v; } \
    BUILTIN(type, _Z8abs_diff##suffix##suffix, type a, type b) { return a < b ? b - a : a - b; }
COMPARED(i, int) COMPARED(j, unsigned) COMPARED(l, long) COMPARED(m, unsigned long)
BUILTIN(unsigned, _Z3absi, int v) { return static_cast<unsigned>(std::abs(v)); }
BUILTIN(unsigned, _Z3absj, unsigned v) { return v; }
BUILTIN(unsigned long, _Z3absl, long v) { return static_cast<unsigned long>(std::labs(v)); }
BUILTIN(unsigned long, _Z3absm, unsigned long v) { return v; }
#define REAL1(mangled, function) BUILTIN(float, mangled, float a) { return function(a); }
#define REAL2(mangled, function) BUILTIN(float, mangled, float a, float b) { return function(a, b); }
REAL1(_Z4fabsf, std::fabs) REAL1(_Z4sqrtf, std::sqrt) REAL1(_Z5floorf, std::floor) REAL1(_Z4ceilf, std::ceil) REAL1(_Z5roundf, std::round)
REAL2(_Z4fminff, std::fmin) REAL2(_Z4fmaxff, std::fmax) REAL2(_Z3minff, std::fmin) REAL2(_Z3maxff, std::fmax) REAL2(_Z3powff, std::pow) REAL2(_Z4powrff, std::pow)
BUILTIN(float, _Z5clampfff, float v, float a, float b) { return std::fmin(std::fmax(v, a), b); }
BUILTIN(float, _Z4pownfi, float a, int b) { return std::pow(a, static_cast<float>(b)); }
BUILTIN(float, _Z3fmafff, float a, float b, float c) { return std::fma(a, b, c); }
BUILTIN(float, _Z3madfff, float a, float b, float c) { return a * b + c; }
BUILTIN(int, _Z5isnanf, float v) { return std::isnan(v); }
BUILTIN(int, _Z5isinff, float v) { return std::isinf(v); }
#define ATOMIC2(prefix, length, name, suffix, type, expression) \
    BUILTIN(type, _Z##length##prefix##name##PU8CLglobalV##suffix##suffix, volatile type* a, type v) \
    { device::access(const_cast<type*>(a), sizeof(type), "writes"); type o = *a; *a = static_cast<type>(expression); return o; }
#define ATOMIC1(prefix, length, name, suffix, type, expression) \
    BUILTIN(type, _Z##length##prefix##name##PU8CLglobalV##suffix, volatile type* a) \
    { device::access(const_cast<type*>(a), sizeof(type), "writes"); type o = *a; *a = static_cast<type>(expression); return o; }
#define ATOMICS(suffix, type) \
    ATOMIC2(atomic_, 10, add, suffix, type, o + v) ATOMIC2(atom_, 8, add, suffix, type, o + v) \
    ATOMIC2(atomic_, 10, sub, suffix, type, o - v) ATOMIC2(atom_, 8, sub, suffix, type, o - v) \
    ATOMIC2(atomic_, 10, and, suffix, type, o & v) ATOMIC2(atom_, 8, and, suffix, type, o & v) \
    ATOMIC2(atomic_, 9, or, suffix, type, o | v) ATOMIC2(atom_, 7, or, suffix, type, o | v) \
    ATOMIC2(atomic_, 10, xor, suffix, type, o ^ v) ATOMIC2(atom_, 8, xor, suffix, type, o ^ v) \
    ATOMIC2(atomic_, 10, min, suffix, type, v < o ? v : o) ATOMIC2(atom_, 8, min, suffix, type, v < o ? v : o) \
    ATOMIC2(atomic_, 10, max, suffix, type, o < v ? v : o) ATOMIC2(atom_, 8, max, suffix, type, o < v ? v : o) \
    ATOMIC2(atomic_, 11, xchg, suffix, type, v) ATOMIC2(atom_, 9, xchg, suffix, type, v) \
    ATOMIC1(atomic_, 10, inc, suffix, type, o + 1) ATOMIC1(atom_, 8, inc, suffix, type, o + 1) \
    ATOMIC1(atomic_, 10, dec, suffix, type, o - 1) ATOMIC1(atom_, 8, dec, suffix, type, o - 1) \
    BUILTIN(type, _Z14atomic_cmpxchgPU8CLglobalV##suffix##suffix##suffix, volatile type* a, type e, type v) \
    { device::access(const_cast<type*>(a), sizeof(type), "writes"); type o = *a; if (o == e) *a = v; return o; }
#pragma GCC diagnostic push
#if defined(__clang__)
#pragma GCC diagnostic ignored "-Wkeyword-macro"
#endif
ATOMICS(i, int) ATOMICS(j, unsigned)
#pragma GCC diagnostic pop
