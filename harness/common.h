#pragma once
#include <vector>
#include <string>
#include "helpers/rational.h"
#define SX_RATIONAL
#include "sx.h"
#include "wicked-def.h"
#include "helpers/orbital_space.h"
#include "helpers/helpers.h"
inline std::vector<std::string> ixs(const std::string &s) { std::vector<std::string> v; for (char c : s) v.push_back(std::string(1, c)); return v; }
// spaces given as a string: o occupied, v unoccupied, g/h general, b boson (unoccupied)
inline void setup_spaces(const std::string &sp) {
  orbital_subspaces->reset();
  for (char c : sp) switch (c) {
    case 'o': orbital_subspaces->add_space('o', FieldType::Fermion, SpaceType::Occupied, ixs("ijklmn")); break;
    case 'v': orbital_subspaces->add_space('v', FieldType::Fermion, SpaceType::Unoccupied, ixs("abcdef")); break;
    case 'g': orbital_subspaces->add_space('g', FieldType::Fermion, SpaceType::General, ixs("uvwxyz")); break;
    case 'h': orbital_subspaces->add_space('h', FieldType::Fermion, SpaceType::General, ixs("rst")); break;
    case 'p': orbital_subspaces->add_space('p', FieldType::Fermion, SpaceType::Unoccupied, ixs("pq")); break;
    case 'c': orbital_subspaces->add_space('c', FieldType::Fermion, SpaceType::Occupied, ixs("IJ")); break;
    case 'b': orbital_subspaces->add_space('b', FieldType::Boson, SpaceType::Unoccupied, ixs("BCD")); break;
    }
}
