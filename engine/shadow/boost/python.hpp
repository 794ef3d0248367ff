// Light stand-in for Boost.Python used only when the checks translate the repository's sources to LLVM IR: the python
// glue (class registration, converters) is not part of any verified function, and instantiating the real one costs 10 s per file.
// If a translation unit does not compile with this header, the driver compiles it again against the real Boost.Python.
#pragma once
#include <Python.h>
#include <string>
#include <boost/shared_ptr.hpp>
#include <boost/noncopyable.hpp>
#include <boost/type_traits.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/lexical_cast.hpp>
#include <boost/bind.hpp>
#include <boost/function.hpp>
namespace boost{ namespace python{
class object; class list; class tuple; class dict; class str;
struct error_already_set{ virtual ~error_already_set(){} };
inline void throw_error_already_set(){ throw error_already_set(); }
inline void handle_exception(){}
inline PyObject* incref(PyObject*p){return p;} inline PyObject* decref(PyObject*p){return p;}
namespace detail{ struct sink{ template<class... A> sink(A&&...){} }; struct borrowed_reference_t{}; struct new_reference_t{}; inline borrowed_reference_t* borrowed_reference(PyObject*){return nullptr;} inline new_reference_t* new_reference(PyObject*){return nullptr;}
template<class T> T* any_ptr(){ return nullptr; } }
class object{
public:
	object(){}
	object(const object&)=default; object& operator=(const object&)=default;
	template<class T, class=typename std::enable_if<!std::is_base_of<object,typename std::decay<T>::type>::value>::type> object(T&&){}
	template<class T, class=typename std::enable_if<!std::is_base_of<object,typename std::decay<T>::type>::value>::type> object& operator=(T&&){ return *this; }
	template<class K> object operator[](const K&) const { return object(); }
	template<class... A> object operator()(A&&...) const { return object(); }
	object attr(const std::string&) const { return object(); }
	object slice(int,int) const { return object(); }
	template<class T> object operator*(const T&) const { return object(); }
	PyObject* ptr() const { return Py_None; }
	bool is_none() const { return true; }
	explicit operator bool() const { return false; }
	bool operator!() const { return true; }
	template<class T> object& operator+=(const T&){ return *this; }
};
#define VF_PYOP(op) template<class T> object operator op(const object&, const T&){ return object(); } 
VF_PYOP(+) VF_PYOP(-) VF_PYOP(/) VF_PYOP(%)
VF_PYOP(==) VF_PYOP(!=) VF_PYOP(<) VF_PYOP(>) VF_PYOP(<=) VF_PYOP(>=)
#undef VF_PYOP
class list: public object{ public: list(){} template<class T> explicit list(const T&){} template<class T> void append(const T&){} template<class T> void extend(const T&){} template<class A,class B> void insert(const A&,const B&){} void sort(){} void reverse(){} template<class T> object pop(const T&){return object();} object pop(){return object();} template<class T> long index(const T&){return 0;} template<class T> long count(const T&){return 0;} };
class tuple: public object{ public: tuple(){} template<class T> explicit tuple(const T&){} };
class str: public object{ public: str(){} template<class T> explicit str(const T&){} template<class... A> str join(A&&...)const{return str();} template<class... A> bool startswith(A&&...)const{return false;} };
class long_: public object{ public: long_(){} template<class T> explicit long_(const T&){} };
class dict: public object{ public: dict(){} template<class T> explicit dict(const T&){} template<class... A> void update(A&&...){} list items() const {return list();} list keys() const {return list();} list values() const {return list();} template<class T> bool has_key(const T&) const {return false;} void clear(){} template<class... A> object get(A&&...) const{return object();} };
template<class... A> tuple make_tuple(A&&...){ return tuple(); }
template<class T> long len(const T&){ return 0; }
template<class T> struct extract{
	typedef T type; T* p; 
	template<class O> extract(const O&): p(nullptr){}
	typedef typename std::decay<T>::type DT; static DT& val(){ static char b[sizeof(DT)+64]; return *reinterpret_cast<DT*>(b); }
	operator T() const { return static_cast<T>(val()); }
	T operator()() const { return static_cast<T>(val()); }
	bool check() const { return false; }
};
template<class R,class... A> R call(PyObject*,A&&...){ throw error_already_set(); }
template<class T> struct handle{ template<class... A> handle(A&&...){} T* get()const{return nullptr;} T* release(){return nullptr;} };
template<class T> T* borrowed(T* p){ return p; }
template<class T> T* allow_null(T* p){ return p; }
struct scope: public object{ scope(){} template<class T> scope(const T&){} };
inline object import(const std::string&){ return object(); }
template<class... A> object exec(A&&...){ return object(); }
template<class... A> object eval(A&&...){ return object(); }
struct arg{ arg(const char*){} template<class T> arg& operator=(const T&){ return *this; } };
template<class A,class B> typename std::enable_if<std::is_same<A,arg>::value||std::is_same<B,arg>::value,arg>::type operator,(A a,B){ return arg(""); }
struct args{ template<class... A> args(A&&...){} };
struct self_t{ template<class T> self_t operator+(const T&)const{return *this;} template<class T> self_t operator-(const T&)const{return *this;} template<class T> self_t operator*(const T&)const{return *this;} template<class T> self_t operator==(const T&)const{return *this;} template<class T> self_t operator!=(const T&)const{return *this;} template<class T> self_t operator+=(const T&)const{return *this;} };
static const self_t self;
template<class T> struct other{};
template<class...> struct bases{};
template<class...> struct init{ template<class... A> init(A&&...){} template<class T> init operator[](const T&)const{return *this;} };
template<class...> struct optional{};
struct no_init_t{}; static const no_init_t no_init;
struct default_call_policies{};
template<class T=void,class=void> struct return_value_policy{};
struct return_by_value{}; struct copy_const_reference{}; struct copy_non_const_reference{}; struct reference_existing_object{}; struct manage_new_object{};
template<class T=void> struct return_self{};
template<int=1,class=void> struct return_internal_reference{};
template<int=0,int=0,class=void> struct with_custodian_and_ward{};
template<int=0,int=0,class=void> struct with_custodian_and_ward_postcall{};
template<class... A> object make_getter(A&&...){ return object(); }
template<class... A> object make_setter(A&&...){ return object(); }
template<class... A> object make_constructor(A&&...){ return object(); }
template<class... A> object make_function(A&&...){ return object(); }
template<class F> object raw_function(F,int=0){ return object(); }
template<class T,class=void,class=void,class=void> struct class_: public object{
	template<class... A> explicit class_(A&&...){}
	template<class... A> class_& def(A&&...){ return *this; }
	template<class... A> class_& def_readwrite(A&&...){ return *this; }
	template<class... A> class_& def_readonly(A&&...){ return *this; }
	template<class... A> class_& add_property(A&&...){ return *this; }
	template<class... A> class_& add_static_property(A&&...){ return *this; }
	template<class... A> class_& def_pickle(A&&...){ return *this; }
	template<class... A> class_& setattr(A&&...){ return *this; }
	template<class... A> class_& staticmethod(A&&...){ return *this; }
};
template<class T> struct enum_: public object{ enum_(const char*,const char* =0){} enum_& value(const char*,T){return *this;} enum_& export_values(){return *this;} };
template<class... A> void def(A&&...){}
template<class T> struct register_exception_translator_t{};
template<class E,class F> void register_exception_translator(F){}
template<class A,class B,bool C=false> struct to_python_converter{};
struct docstring_options{ template<class... A> docstring_options(A&&...){} void enable_all(){} void disable_all(){} void enable_py_signatures(){} void disable_py_signatures(){} void enable_user_defined(){} void enable_cpp_signatures(){} void disable_cpp_signatures(){} };
struct pickle_suite{};
template<class T> struct type_id_t{};
namespace api{ using boost::python::object; struct slice_nil{}; static const slice_nil _; }
using api::_;
namespace detail{ template<class F> object make_raw_function(F){ return object(); } }
namespace objects{ struct py_function{ template<class... A> py_function(A&&...){} }; template<class... A> object function_object(A&&...){ return object(); } }
namespace converter{ template<class T> struct rvalue_from_python_storage{ struct{void*bytes;}storage; }; struct rvalue_from_python_stage1_data{ void* convertible; }; namespace registry{ template<class... A> void push_back(A&&...){} } template<class T> T* get_ptr(){return nullptr;} }
template<class T> int type_id(){ return 0; }
using boost::get_pointer;
}}
#define BOOST_PYTHON_MODULE(name) static void vf_init_module_##name()
#define BOOST_PYTHON_FUNCTION_OVERLOADS(name,f,a,b) struct name{ template<class... A> name(A&&...){} };
#define BOOST_PYTHON_MEMBER_FUNCTION_OVERLOADS(name,f,a,b) struct name{ template<class... A> name(A&&...){} };
