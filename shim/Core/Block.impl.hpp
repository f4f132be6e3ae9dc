// Part of the So-bogus stand-in; see FrictionProblem.hpp in this directory tree.
