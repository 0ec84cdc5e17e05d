#pragma once
namespace brigand
{
template <typename...>
struct list
{
};
}
