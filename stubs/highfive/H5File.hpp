// Analysis stand-in for the HighFive submodule and libhdf5 (absent): declarations only.
#pragma once
#include <string>
#include <vector>
#include <initializer_list>
#include <exception>
#include <cstddef>
typedef unsigned long long hsize_t; typedef long hid_t; typedef int herr_t; typedef herr_t (*H5E_auto2_t)(hid_t, void *);
#define H5E_DEFAULT 0
herr_t H5Eset_auto(hid_t, H5E_auto2_t, void *);
namespace HighFive {
  class Exception : public std::exception { public: const char *what() const noexcept override; ~Exception() override; };
  class ObjectException : public Exception {}; class FileException : public Exception {}; class DataSetException : public Exception {}; class DataSpaceException : public Exception {};
  class DataTypeException : public Exception {}; class GroupException : public Exception {}; class AttributeException : public Exception {}; class PropertyException : public Exception {};
  class DataType { public: long id; };
  template <class T> class AtomicType : public DataType { public: AtomicType(); };
  class DataSpace { public: long id; static const size_t UNLIMITED = (size_t)-1;
    explicit DataSpace(const std::vector<size_t> &); DataSpace(const std::vector<size_t> &, const std::vector<size_t> &); DataSpace(std::initializer_list<size_t>); 
    std::vector<size_t> getDimensions() const; template <class T> static DataSpace From(const T &); };
  class Chunking { public: explicit Chunking(const std::vector<hsize_t> &); std::vector<hsize_t> d; };
  class Deflate { public: explicit Deflate(unsigned); unsigned l; }; class Shuffle { public: Shuffle(); };
  class DataSetCreateProps { public: DataSetCreateProps(); template <class P> void add(const P &); };
  class DataSetAccessProps { public: DataSetAccessProps(); };
  class Attribute { public: long id; template <class T> void write(const T &); template <class T> void read(T &) const; };
  class Selection { public: long id; template <class T> void write(const T &); template <class T> void read(T &) const; };
  class DataSet { public: long id;
    Selection select(const std::vector<size_t> &offset, const std::vector<size_t> &count, const std::vector<size_t> &stride = std::vector<size_t>()) const;
    template <class T> void write(const T &); template <class T> void read(T &) const;
    std::vector<size_t> getDimensions() const; void resize(const std::vector<size_t> &); DataSpace getSpace() const;
    template <class T> Attribute createAttribute(const std::string &, const DataSpace &); };
  class Group { public: long id; template <class T> Attribute createAttribute(const std::string &, const DataSpace &); bool exist(const std::string &) const; bool hasAttribute(const std::string &) const;
    Attribute getAttribute(const std::string &) const; };
  class FileDriver { public: FileDriver(); }; 
  class MPIOFileDriver : public FileDriver { public: template <class C, class I> MPIOFileDriver(C, I); };
  class File { public: enum : unsigned { ReadOnly = 0, ReadWrite = 1, Truncate = 2, Excl = 4, Debug = 8, Create = 16, Overwrite = 2, OpenOrCreate = 17 };
    File(const std::string &, unsigned flags = ReadOnly, const FileDriver &d = FileDriver()); ~File();
    DataSet getDataSet(const std::string &) const; Group getGroup(const std::string &) const; Group createGroup(const std::string &, bool parents = true);
    DataSet createDataSet(const std::string &, const DataSpace &, const DataType &, const DataSetCreateProps &p = DataSetCreateProps(), const DataSetAccessProps &a = DataSetAccessProps());
    template <class T> DataSet createDataSet(const std::string &, const DataSpace &, const DataSetCreateProps &p = DataSetCreateProps());
    bool exist(const std::string &) const; void flush(); };
}
