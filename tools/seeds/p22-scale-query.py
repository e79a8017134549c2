property = "P22"
needs = "boundaryScale set to something else than scale, then scale set or queried"
breaks = "setting or querying scale reports boundaryScale"
edits = [("include/HyperHDG/plot.hxx",
"""    return_value = std::to_string(plot_options.scale);""",
"""    return_value = std::to_string(plot_options.boundary_scale);""")]
demo = r'''
#include "mini.hxx"
#include <HyperHDG/hdg_hypergraph.hxx>
#include <HyperHDG/plot.hxx>
int main()
{
  PlotOptions o;
  set_plot_option(o, "boundaryScale", "0.25");
  CHECK(std::stof(set_plot_option(o, "scale", "0.5")) == 0.5f);
  CHECK(std::stof(set_plot_option(o, "scale")) == 0.5f);
  CHECK(std::stof(set_plot_option(o, "boundaryScale")) == 0.25f);
  return demo_bad;
}
'''
