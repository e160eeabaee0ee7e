/* Stand-in for submodules/utils (TUM-I5/utils is an empty submodule here). */
#ifndef VERIF_SHIM_STRINGUTILS_H
#define VERIF_SHIM_STRINGUTILS_H

#include <cctype>
#include <cstring>
#include <sstream>
#include <string>

namespace utils
{

class StringUtils
{
public:
	static void toUpper(std::string &s)
	{
		for (std::string::size_type i = 0; i < s.size(); i++)
			s[i] = static_cast<char>(std::toupper(static_cast<unsigned char>(s[i])));
	}

	static bool startsWith(const std::string &s, const std::string &prefix)
	{
		return s.compare(0, prefix.size(), prefix) == 0;
	}

	template<typename T>
	static std::string toString(T value)
	{
		std::ostringstream ss;
		ss << value;
		return ss.str();
	}

	template<typename T>
	static T parse(const std::string &s, bool advanced = false);
};

template<typename T> inline
T StringUtils::parse(const std::string &s, bool)
{
	T result = T();
	std::istringstream ss(s);
	ss >> result;
	return result;
}

template<> inline
std::string StringUtils::parse(const std::string &s, bool)
{
	return s;
}

template<> inline
const char* StringUtils::parse(const std::string &s, bool)
{
	return s.c_str();
}

}

#endif
