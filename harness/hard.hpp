/*
 * Problems in which the best node of some pixel, left by the CSP solution at the minimal threshold, belongs to no labeling,
 * so that the search has to step back; about one random problem of such sizes in 25000.
 * Found by random search with the model only.
 */
#pragma once
#include "model.hpp"

namespace hard
{
using model::Problem;
using model::ul;

struct Known
{
    ul W, H, D, max_value;
    double c, s;
    std::vector<ul> L, R;
};
inline const std::vector<Known>& known()
{
    static const std::vector<Known> problems{
        {5,2,5,4,1,1,{4,3,0,3,3,2,2,1,1,3},{1,3,4,3,0,4,4,2,4,3}},
        {5,2,5,9,0.25,2,{8,6,7,5,6,7,4,7,8,5},{7,2,3,0,2,4,3,4,7,6}},
        {5,2,5,5,0.25,3,{3,0,5,5,2,1,1,4,5,2},{5,0,2,1,1,0,1,5,1,1}},
        {5,2,5,5,3,4,{2,2,3,3,2,5,3,4,5,3},{3,1,3,2,1,0,3,2,1,0}},
        {5,2,5,2,6,3,{2,1,0,2,1,1,1,2,2,0},{0,2,2,2,0,0,0,1,1,0}},
        {5,2,5,9,1,10,{7,6,2,6,3,6,7,1,1,3},{3,7,6,3,4,6,5,1,2,7}},
        {5,2,5,5,1,4,{2,1,4,3,5,4,3,0,1,3},{4,1,1,2,0,4,5,4,0,5}},
        {5,2,5,5,2,4,{4,4,1,4,3,1,2,1,0,2},{2,3,5,3,3,5,4,1,5,2}},
        {5,2,5,4,1,0.5,{1,3,4,3,1,4,3,4,4,3},{4,2,2,2,3,0,2,4,2,2}},
        {5,2,5,3,1,1,{2,3,1,2,1,0,2,0,0,3},{0,3,2,3,0,2,3,1,1,3}},
        {5,3,5,6,0.5,3,{2,1,0,3,0,3,2,0,0,1,3,6,2,6,3},{0,6,0,3,1,6,6,0,0,1,5,6,3,0,2}},
        {5,3,5,4,6,10,{3,2,1,2,3,3,3,1,1,4,0,3,3,1,2},{1,4,4,1,1,3,4,3,2,1,4,4,4,0,2}},
        {5,3,5,2,1,1,{1,1,2,1,1,2,2,0,0,1,1,1,2,0,1},{2,0,1,0,1,2,2,1,1,0,2,1,2,2,0}},
        {5,3,5,5,0.25,2,{1,4,0,2,5,1,2,5,5,0,4,4,1,3,0},{0,4,0,3,0,2,0,2,0,5,4,4,4,3,5}},
        {5,3,5,8,1,10,{3,0,5,6,3,6,3,7,8,3,6,8,0,6,6},{5,1,2,5,5,0,4,5,3,0,7,6,4,5,7}},
        {5,3,5,6,0.25,6,{4,3,0,3,3,3,4,0,0,5,0,5,1,1,1},{0,6,3,0,4,6,6,3,4,4,6,6,0,3,1}},
        {5,4,5,6,0.5,3,{5,3,1,3,3,2,5,2,2,6,6,6,1,5,2,2,0,3,0,6},{1,6,6,4,4,6,6,5,4,6,2,4,5,3,3,4,0,3,4,2}},
        {5,4,5,4,0.25,1,{4,1,3,1,2,2,2,4,4,1,3,0,1,0,1,3,1,2,1,2},{3,0,3,2,2,1,1,2,3,3,2,0,1,4,3,0,2,4,3,0}},
        {5,4,5,2,1,3,{0,0,1,1,1,0,1,2,1,0,2,2,0,0,1,1,0,1,2,1},{2,0,1,2,0,2,0,2,1,2,2,2,2,1,0,0,2,1,1,1}},
        {5,4,5,7,1,10,{4,5,0,3,4,7,5,2,2,6,1,3,3,6,5,3,7,0,0,4},{0,7,5,5,4,7,7,2,5,0,1,2,5,7,0,4,6,3,3,6}},
        {5,4,5,4,0.25,0.5,{0,3,4,2,2,1,2,0,0,1,1,1,1,1,1,4,0,4,4,1},{4,0,3,0,2,3,4,1,0,4,2,4,3,4,2,4,3,3,4,2}},
        {5,4,5,4,1,4,{4,1,4,2,0,3,0,2,4,0,4,3,4,3,3,1,2,4,4,1},{2,1,1,2,1,3,4,2,0,4,4,0,1,4,3,1,1,3,2,0}},
        {5,4,5,5,3,10,{1,3,4,2,3,5,2,5,5,4,4,0,3,2,2,3,4,0,1,1},{4,0,3,5,2,1,1,2,3,1,3,1,3,0,0,0,4,5,5,4}},
        {5,4,5,4,1,6,{0,0,3,1,0,4,3,1,2,4,0,2,0,1,4,2,2,4,4,3},{2,0,3,0,4,0,2,2,0,1,0,3,0,0,3,0,0,3,1,4}},
        {5,4,5,2,1,1,{1,1,0,1,0,1,0,2,2,1,0,1,2,2,0,1,2,1,2,1},{0,2,0,2,1,0,0,1,2,2,2,1,1,1,1,1,0,1,1,0}},
        {5,4,5,5,0.5,1,{5,2,0,4,1,3,2,5,5,1,2,0,3,3,5,0,4,3,5,4},{0,3,2,2,4,2,2,3,0,1,2,4,5,3,5,2,2,0,5,2}},
        {6,2,5,7,1,6,{2,2,5,3,3,5,1,5,0,7,6,5},{4,6,3,5,7,5,0,4,2,5,0,7}},
        {6,2,5,2,1,2,{1,1,0,1,1,2,2,1,2,2,1,2},{0,2,1,0,2,1,0,0,1,1,2,0}},
        {6,2,5,7,1,2,{4,0,5,7,1,5,6,6,1,2,5,6},{6,2,4,6,4,4,6,5,3,3,1,7}},
        {6,2,5,4,1,3,{1,2,0,0,1,2,3,2,0,1,2,1},{0,2,0,2,1,0,4,4,0,0,1,1}},
        {6,2,5,2,6,10,{1,1,0,2,1,2,2,2,0,0,2,0},{0,2,2,2,1,1,2,2,0,1,0,2}},
        {6,2,5,4,1,1,{2,2,1,2,2,2,2,0,4,4,1,0},{0,4,4,0,4,0,1,1,2,2,4,4}},
        {6,2,6,3,1,3,{2,1,0,1,1,1,2,2,1,0,3,1},{0,3,1,1,1,3,3,3,2,0,0,2}},
        {6,2,6,4,2,4,{2,1,3,0,2,1,4,2,0,4,1,0},{3,0,2,0,1,0,2,2,1,2,2,0}},
        {6,2,6,5,1,3,{3,3,2,5,3,1,4,4,0,5,5,3},{5,1,4,2,1,3,1,2,3,1,2,2}},
        {6,2,6,2,1,1,{1,1,2,2,0,1,0,1,0,2,2,1},{2,0,2,1,1,0,0,0,1,0,2,1}},
        {6,2,6,6,1,10,{2,3,6,4,3,4,5,2,0,0,0,4},{5,0,2,0,6,1,4,5,1,4,6,5}},
        {6,2,6,3,2,6,{2,1,0,3,2,1,2,2,3,3,1,3},{0,2,0,1,0,3,0,0,2,2,0,1}},
        {6,2,6,7,3,6,{3,6,1,2,7,4,5,4,5,5,3,1},{1,4,0,4,5,0,2,2,4,1,4,7}},
        {6,2,6,3,0.5,3,{1,0,3,0,3,1,0,3,3,0,0,1},{3,0,0,1,0,0,0,3,3,2,1,1}},
        {6,2,6,9,0.5,4,{3,6,9,7,6,9,0,1,7,8,0,4},{9,2,7,4,9,2,1,2,7,4,9,8}},
        {6,2,6,2,2,4,{0,1,1,2,1,0,1,1,1,0,0,1},{2,0,2,1,1,1,2,2,2,0,0,0}},
        {6,3,5,5,1,6,{0,5,4,5,4,4,3,4,2,4,2,5,0,4,1,0,4,5},{4,5,1,0,0,1,2,5,1,2,0,1,5,4,2,4,5,3}},
        {6,3,5,7,0.25,1,{5,3,0,3,4,3,6,6,1,7,0,3,0,0,4,5,5,6},{1,4,6,1,0,1,3,4,5,3,5,6,2,4,2,1,0,6}},
        {6,3,5,4,1,4,{1,2,0,2,1,2,1,2,3,0,2,2,4,1,4,4,2,3},{0,3,0,1,4,4,3,0,2,3,0,3,0,1,2,3,0,3}},
        {6,3,5,4,0.5,1,{3,2,1,3,1,2,3,3,0,1,3,1,3,2,3,0,0,1},{1,3,2,3,0,2,4,3,2,1,2,2,1,2,2,4,0,2}},
        {6,3,5,3,1,1,{2,3,1,3,2,1,0,0,3,2,1,1,2,2,1,3,0,1},{1,3,2,1,1,2,0,0,0,3,2,3,0,2,1,0,1,0}},
        {6,3,6,2,4,1,{1,2,0,0,1,0,0,2,0,0,0,1,1,0,2,1,0,2},{0,2,0,0,0,0,2,2,0,0,0,2,0,0,1,0,0,1}},
        {6,3,6,2,2,2,{1,1,0,2,2,1,1,1,1,2,2,1,1,0,2,0,1,0},{2,0,1,2,1,0,0,0,2,1,0,0,0,1,0,1,1,2}},
        {6,3,6,6,0.5,4,{2,5,1,1,4,0,5,3,6,5,4,0,5,1,5,2,2,6},{1,5,3,0,1,3,1,1,3,6,4,3,0,2,2,3,0,0}},
        {6,4,5,3,3,4,{2,2,3,0,1,1,0,1,3,3,2,1,3,0,0,2,3,1,1,1,3,3,3,3},{3,0,2,2,0,1,0,0,2,1,3,0,3,2,2,3,0,0,2,1,1,3,3,2}},
        {6,4,5,2,3,1,{0,0,1,0,0,2,0,2,1,0,0,1,0,2,0,0,1,1,2,0,0,1,2,0},{2,0,2,1,2,2,1,2,0,2,2,2,0,2,1,2,2,2,1,0,2,0,1,2}},
        {6,4,5,7,0.5,10,{1,2,6,0,3,1,7,3,0,0,5,0,5,0,4,4,7,0,5,0,4,6,3,6},{5,1,7,7,5,0,5,6,2,0,3,1,4,3,1,3,2,5,5,4,4,1,0,4}},
        {6,4,6,7,0.5,10,{0,5,3,7,5,0,0,5,2,0,0,2,5,7,7,2,3,7,2,6,0,5,5,1},{7,7,6,4,1,6,5,6,7,1,4,2,1,6,7,0,6,4,3,1,6,6,2,5}},
        {6,4,6,5,1,4,{5,2,0,4,2,2,1,5,1,1,1,4,1,5,0,5,2,1,2,2,3,0,3,2},{0,5,5,4,4,5,5,5,2,2,4,4,4,2,4,1,4,1,3,4,2,1,2,4}},
        {6,4,6,5,0.5,1,{0,5,2,0,5,3,3,3,4,5,2,5,2,0,5,1,3,2,0,0,2,5,1,3},{2,5,1,2,2,1,1,1,3,2,3,2,1,0,1,3,5,4,4,2,5,3,0,4}},
        {7,2,5,3,4,6,{1,2,3,3,0,1,2,1,2,1,3,0,3,0},{3,1,3,3,2,1,3,0,3,0,1,1,0,2}},
        {7,2,5,4,1,1,{4,0,1,3,1,2,2,3,0,1,4,4,0,3},{1,3,1,4,3,1,2,4,0,2,1,1,1,0}},
        {7,2,5,3,1,1,{3,3,0,3,3,2,1,2,1,3,3,2,1,3},{1,2,3,0,2,0,2,1,0,3,1,2,0,2}},
        {7,2,5,7,0.25,1,{7,2,1,1,2,7,3,0,5,7,1,2,6,0},{1,5,2,4,5,7,0,4,4,1,5,7,1,1}},
        {7,2,5,8,0.5,4,{1,0,4,0,1,8,2,7,0,1,8,5,8,3},{7,7,5,0,6,4,4,8,0,1,7,4,1,7}},
        {7,2,6,7,0.5,1,{5,1,4,6,1,5,3,1,4,5,1,7,6,5},{4,5,5,6,3,5,0,1,4,7,6,3,1,2}},
        {7,2,6,4,0.25,0.5,{2,1,4,3,1,3,4,1,4,2,4,3,0,2},{4,0,1,4,3,1,1,1,0,4,2,4,4,2}},
        {7,2,6,7,0.5,3,{5,7,0,4,3,4,6,4,3,4,7,6,2,7},{4,2,1,5,3,5,5,3,2,2,7,4,6,6}},
        {7,2,6,2,1,0.5,{1,1,0,2,0,0,1,1,1,0,0,1,1,2},{0,2,0,1,0,2,2,2,2,0,2,1,0,2}},
        {7,2,6,6,0.25,2,{2,3,1,6,3,4,2,4,3,0,1,0,5,0},{0,5,0,5,4,4,5,5,6,1,3,2,1,6}},
        {7,2,6,4,1,3,{1,1,2,1,3,2,2,3,1,2,4,0,2,3},{2,0,0,1,3,0,1,4,2,3,4,2,2,2}},
        {7,2,6,4,3,10,{3,2,1,3,4,2,1,4,1,0,3,4,3,1},{1,4,0,3,0,4,0,1,0,0,2,1,2,2}},
        {7,2,6,4,4,10,{4,1,4,4,1,1,4,0,0,4,1,2,3,3},{3,1,3,3,3,1,4,3,4,2,4,3,4,2}},
        {7,2,6,2,0.5,1,{2,1,0,0,2,2,0,2,2,0,0,1,1,0},{0,2,1,1,0,0,0,2,2,1,2,2,2,2}},
        {7,2,7,8,0.25,6,{2,6,7,8,1,1,4,3,3,5,0,2,7,6},{8,2,4,8,6,1,5,7,8,1,5,8,0,3}},
        {7,2,7,2,2,2,{1,0,2,2,0,1,1,0,2,0,0,0,2,2},{2,0,2,0,0,1,1,2,2,1,2,1,0,0}},
        {7,2,7,3,2,1,{0,0,2,3,0,0,2,1,2,0,0,3,1,2},{3,2,1,3,1,3,0,3,1,1,1,3,2,2}},
        {7,2,7,7,1,6,{0,1,7,1,0,1,2,3,4,2,7,6,3,7},{5,1,6,4,0,6,3,0,1,1,2,2,5,7}},
        {7,2,7,6,1,10,{1,3,2,1,5,6,3,4,5,2,1,1,3,4},{2,6,4,3,0,0,2,6,6,3,1,1,3,0}},
        {7,2,7,5,1,1,{5,1,2,5,5,2,2,4,3,2,5,5,2,1},{2,2,4,1,1,2,4,5,1,3,1,1,2,1}},
        {7,2,7,6,0.5,6,{3,1,0,0,4,2,1,6,3,2,2,5,6,4},{6,0,1,3,3,6,2,0,0,0,1,6,1,1}},
        {7,2,7,3,0.5,1,{2,2,2,1,0,3,2,2,0,0,2,0,0,2},{0,3,0,1,3,0,2,3,3,2,3,0,3,1}},
        {7,2,7,7,1,6,{5,1,2,2,5,4,2,6,7,4,5,6,7,4},{6,0,6,5,3,4,4,1,0,2,3,6,2,1}},
        {7,2,7,2,1,0.5,{1,1,2,0,0,1,1,1,2,1,1,0,0,1},{0,2,0,2,2,2,2,2,2,2,0,0,1,0}},
        {7,3,5,3,4,3,{0,1,2,1,3,1,3,3,0,3,3,3,2,1,2,0,2,2,1,2,3},{2,1,1,2,3,3,3,3,1,2,2,3,0,3,1,1,0,1,1,2,3}},
        {7,3,6,5,0.25,1,{4,3,0,0,3,0,4,5,5,0,2,4,0,4,5,0,1,5,0,3,4},{1,5,0,2,0,0,4,5,5,0,4,4,3,4,4,1,2,4,2,4,4}},
        {7,3,6,2,3,1,{1,2,0,0,0,1,2,1,1,2,0,0,1,1,1,2,0,2,2,2,2},{0,2,1,2,0,1,2,2,2,0,2,2,0,2,1,2,1,0,1,1,1}},
        {7,3,6,2,1,3,{0,1,1,2,0,2,1,2,1,1,2,2,0,0,2,1,2,1,2,0,2},{2,0,1,2,2,1,0,0,0,0,1,0,1,2,2,0,0,1,2,2,0}},
        {7,3,7,3,1,4,{3,3,1,2,3,2,0,2,0,2,1,0,1,3,2,3,0,0,0,1,2},{0,3,2,0,0,1,3,2,3,1,1,1,0,2,0,3,0,3,0,1,2}},
        {7,3,7,5,2,10,{2,2,4,1,2,1,4,3,0,4,5,0,3,5,1,3,4,0,0,3,3},{5,1,0,1,3,3,0,0,0,3,1,2,3,0,1,5,4,1,5,1,0}},
        {7,3,7,2,2,1,{1,1,0,2,0,1,0,1,2,1,0,0,1,2,2,0,1,2,0,1,0},{0,2,0,2,2,2,1,2,2,2,0,1,0,1,2,0,1,0,1,1,0}},
        {7,4,5,2,1,1,{1,2,0,1,2,2,1,0,1,2,2,1,0,1,2,0,1,0,1,0,1,1,2,0,1,1,0,0},{0,2,2,0,2,1,0,0,0,2,1,1,0,2,0,2,0,0,0,2,1,0,1,1,0,2,1,1}},
        {7,4,5,5,1,6,{0,3,4,2,5,0,3,0,4,4,0,1,4,4,2,0,2,3,1,1,4,4,4,3,1,5,1,2},{4,2,5,2,1,3,0,0,4,3,5,2,1,5,4,0,2,0,2,0,2,2,4,1,4,1,3,1}},
        {7,4,5,7,1,3,{0,2,3,2,4,0,7,1,5,1,6,3,0,7,5,5,2,2,5,0,7,4,3,5,6,2,4,4},{6,3,7,6,6,1,2,0,3,7,1,3,0,2,2,7,4,0,1,1,6,0,1,2,3,7,1,2}},
        {7,4,6,2,2,1,{1,1,2,0,1,2,2,1,1,0,0,1,0,2,0,1,1,2,1,2,1,2,2,2,0,0,2,1},{2,0,2,1,2,2,1,2,2,0,1,0,2,2,2,1,2,0,2,0,2,1,0,2,2,1,0,2}},
        {7,4,6,2,1,1,{2,2,2,1,1,2,0,1,2,1,2,1,0,1,1,1,0,1,0,2,1,0,2,2,0,0,1,2},{1,0,2,0,2,2,0,1,2,0,1,2,2,2,0,2,2,2,2,2,1,0,2,0,0,0,1,2}},
        {7,4,6,3,2,3,{0,2,3,0,0,2,2,1,3,0,0,3,0,2,3,2,3,0,1,3,3,1,1,0,0,0,2,1},{3,0,1,0,0,0,0,3,3,0,2,2,1,1,0,1,1,2,0,3,2,0,2,2,2,2,3,2}},
        {7,4,7,9,1,10,{8,3,1,4,8,7,4,9,3,0,0,6,2,7,4,8,5,8,7,4,7,7,1,1,4,9,7,8},{4,0,1,3,2,7,2,5,0,0,5,5,0,0,1,0,6,8,3,8,4,8,5,5,7,0,4,8}},
        {7,4,7,7,0.5,10,{5,7,5,2,3,1,1,6,6,4,7,7,3,4,2,0,7,3,0,0,2,7,7,4,0,7,6,7},{0,7,3,3,1,4,3,1,1,4,5,0,4,3,3,4,6,5,5,1,4,2,5,7,1,3,5,0}},
        {7,4,7,2,3,1,{1,0,2,2,1,0,0,2,2,1,0,0,1,0,1,1,2,0,1,0,2,2,0,1,0,0,1,2},{2,0,2,2,2,2,1,2,2,1,2,0,0,2,2,2,2,1,2,2,2,1,2,0,2,0,0,0}},
    };
    return problems;
}

/* One of the problems, or something similar to it. */
inline Problem generate(pbt::Case& c)
{
    const Known& k = c.pick(known());
    Problem p;
    p.W = k.W;
    p.H = k.H;
    p.D = k.D;
    p.max_value = k.max_value;
    p.c = k.c;
    p.s = k.s;
    p.L = k.L;
    p.R = k.R;
    if (c.chance(1, 3))
    {
        // Upside down.
        for (auto* image : {&p.L, &p.R})
            for (ul y = 0; y < p.H / 2; ++y)
                std::swap_ranges(image->begin() + static_cast<long>(y * p.W), image->begin() + static_cast<long>((y + 1) * p.W),
                                 image->begin() + static_cast<long>((p.H - 1 - y) * p.W));
    }
    const double scale = c.pick(std::vector<double>{1, 2, 0.5, 0.25});
    p.c *= scale;
    p.s *= scale;
    const ul more = c.chance(1, 3) ? c.draw(20) : 0;
    p.max_value += more;
    for (auto* image : {&p.L, &p.R})
        for (auto& v : *image) v += more;
    if (c.chance(1, 4))
        for (ul i = c.range(1, 2); i > 0; --i)
        {
            auto& image = c.chance(1, 2) ? p.L : p.R;
            image[c.draw(p.pixels() - 1)] = c.draw(p.max_value);
        }
    else c.label("known to need a step back");
    return p;
}
}
