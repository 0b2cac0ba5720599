#include "core.hpp"
#include <deal.II/base/mpi.h>
#include <deal.II/base/exceptions.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <typeinfo>
#include <unistd.h>
#include <fcntl.h>
#include <cxxabi.h>

using vf::json;

static void write_all(int fd, std::string const &s)
{
  size_t off = 0;
  while (off < s.size())
  {
    ssize_t n = ::write(fd, s.data() + off, s.size() - off);
    if (n <= 0)
      std::abort();
    off += size_t(n);
  }
}

static std::string what_of(std::exception const &e)
{
  int st = 0;
  char *n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
  std::string s = std::string(n ? n : typeid(e).name()) + ": " + e.what();
  std::free(n);
  return s.substr(0, 2500);
}

// usage: worker IN_FIFO OUT_FIFO SCRATCH [threads]
int main(int argc, char **argv)
{
  if (argc < 4)
    return 3;
  int const threads = argc > 4 ? std::atoi(argv[4]) : 1;
  dealii::deal_II_exceptions::disable_abort_on_exception();
  dealii::Utilities::MPI::MPI_InitFinalize mpi(argc, argv, threads);
  int rank, size;
  MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  MPI_Comm_size(MPI_COMM_WORLD, &size);
  std::ifstream in;
  int out = -1;
  if (rank == 0)
  {
    in.open(argv[1]);
    out = ::open(argv[2], O_WRONLY);
    if (!in || out < 0)
      std::abort();
    write_all(out, "{\"ready\":true}\n");
  }
  while (true)
  {
    std::string line;
    long len = -1;
    if (rank == 0 && std::getline(in, line) && !line.empty())
      len = long(line.size());
    MPI_Bcast(&len, 1, MPI_LONG, 0, MPI_COMM_WORLD);
    if (len < 0)
      break;
    line.resize(size_t(len));
    MPI_Bcast(&line[0], int(len), MPI_CHAR, 0, MPI_COMM_WORLD);
    vf::Ctx ctx;
    ctx.rank = rank;
    ctx.size = size;
    ctx.scratch = argv[3];
    std::string harness;
    int root = 0;
    try
    {
      json const c = json::parse(line);
      if (c.contains("sub"))
      {
        // the problem lives on these processes, in this order; the others have no part in it
        auto const sub = c["sub"].get<std::vector<int>>();
        root = sub[0];
        int me = -1;
        for (size_t i = 0; i < sub.size(); ++i)
          if (sub[i] == rank)
            me = int(i);
        MPI_Comm part;
        MPI_Comm_split(MPI_COMM_WORLD, me < 0 ? MPI_UNDEFINED : 0, me, &part);
        if (me >= 0)
        {
          ctx.comm = part;
          ctx.rank = me;
          ctx.size = int(sub.size());
          vf_run(c, ctx);
          ctx.labels.insert("on ranks of its own");
          MPI_Comm_free(&part);
        }
      }
      else
        vf_run(c, ctx);
    }
    catch (vf::HarnessError const &e)
    {
      harness = what_of(e);
    }
    catch (std::exception const &e)
    {
      ctx.fails.push_back("[rank " + std::to_string(rank) + "] uncaught exception " + what_of(e));
      if (size > 1)
      {
        // the other ranks may wait for this one: report and end the job
        std::ofstream f(std::string(argv[3]) + "/exc." + std::to_string(rank));
        f << ctx.fails.back() << std::endl;
        f.close();
        ::usleep(300000);
        MPI_Abort(MPI_COMM_WORLD, 77);
      }
    }
    catch (...)
    {
      ctx.fails.push_back("uncaught non-standard exception");
      if (size > 1)
        MPI_Abort(MPI_COMM_WORLD, 77);
    }
    // merge
    json mine;
    mine["fails"] = ctx.fails;
    mine["nt"] = ctx.nontrivial;
    mine["labels"] = ctx.labels;
    mine["info"] = ctx.info;
    mine["harness"] = harness;
    std::string s = mine.dump(-1, ' ', false, json::error_handler_t::replace);
    if (size == 1)
      write_all(out, s + "\n");
    else
    {
      std::vector<std::string> all = dealii::Utilities::MPI::gather(MPI_COMM_WORLD, s, 0);
      if (rank == 0)
      {
        json r = json::parse(all[size_t(root)]);
        for (int i = 0; i < size; ++i)
        {
          if (i == root)
            continue;
          json o = json::parse(all[size_t(i)]);
          for (auto &f : o["fails"])
            r["fails"].push_back(f);
          for (auto &f : o["labels"])
            r["labels"].push_back(f);
          if (o["nt"].get<bool>())
            r["nt"] = true;
          if (r["harness"].get<std::string>().empty())
            r["harness"] = o["harness"];
        }
        write_all(out, r.dump(-1, ' ', false, json::error_handler_t::replace) + "\n");
      }
    }
  }
  if (rank == 0)
    ::close(out);
  // No orderly shutdown: nothing after the last case is under test.
  std::cout.flush();
  if (size == 1)
    ::_exit(0);
  return 0;
}
