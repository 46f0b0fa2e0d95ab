// Common main of the drivers: options, run, replay, evidence.
static std::string slurp(const std::string& p)
{
    std::ifstream f(p);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
int main(int argc, char** argv)
{
    Options o;
    std::vector<std::string> opt(argv + 1, argv + argc);
    std::string dict, idict;
    for (size_t i = 0; i < opt.size(); ++i)
    {
        auto v = [&] { return opt.at(++i); };
        if (opt[i] == "--property")
            o.property = v();
        else if (opt[i] == "--tier")
            o.tier = v();
        else if (opt[i] == "--seed")
            o.seed = strtoull(v().c_str(), nullptr, 10);
        else if (opt[i] == "--cases")
            o.cases = strtoull(v().c_str(), nullptr, 10);
        else if (opt[i] == "--scale")
            o.scale = atof(v().c_str());
        else if (opt[i] == "--threads")
            o.threads = (unsigned)atoi(v().c_str());
        else if (opt[i] == "--replay")
            o.replay = v();
        else if (opt[i] == "--replay-out")
            o.replay_out = v();
        else if (opt[i] == "--summary")
            o.evidence = v();
        else if (opt[i] == "--max-wall")
            o.max_wall = atof(v().c_str());
        else if (opt[i] == "--dict")
            dict = v();
        else if (opt[i] == "--idict")
            idict = v();
#ifndef NO_ADAPTERS
        else if (opt[i] == "--adapter")
            load(g_ad, v());
        else if (opt[i] == "--cadapter")
            load(g_c, v());
        else if (opt[i] == "--glsl")
            load(g_glsl, v());
#endif
        else
        {
            fprintf(stderr, "unknown option %s\n", opt[i].c_str());
            return 64;
        }
    }
    install_signals();
#ifndef NO_ADAPTERS
    if (!dict.empty())
    {
        std::ifstream f(dict);
        float x;
        while (f >> x)
            gen::g_dict.push_back(x);
    }
    if (!idict.empty())
    {
        std::ifstream f(idict);
        int x;
        while (f >> x)
            gen::g_idict.push_back(x);
    }
#endif
    const PropDef* pd = nullptr;
    for (auto& p : g_props)
        if (o.property == p.id)
            pd = &p;
    if (!pd)
    {
        fprintf(stderr, "no property %s\n", o.property.c_str());
        return 64;
    }
    Prop prop    = pd->f;
    o.concurrent = o.property != "C28"; // it redirects the standard streams
    if (!o.replay.empty())
    {
        // the replay file has a line "choices: n n n ..."
        std::stringstream f(slurp(o.replay));
        std::string line;
        std::vector<uint32_t> ch;
        std::vector<uint64_t> hist;
        uint64_t seed = 1, conc = UINT64_MAX;
        while (std::getline(f, line))
        {
            if (line.rfind("seed: ", 0) == 0)
                seed = strtoull(line.c_str() + 6, nullptr, 10);
            if (line.rfind("concurrent: ", 0) == 0)
                conc = strtoull(line.c_str() + 12, nullptr, 10);
            if (line.rfind("history:", 0) == 0)
            {
                std::stringstream l(line.substr(8));
                uint64_t x;
                while (l >> x)
                    hist.push_back(x);
            }
            if (line.rfind("choices:", 0) == 0)
            {
                std::stringstream l(line.substr(8));
                uint64_t x;
                while (l >> x)
                    ch.push_back((uint32_t)x);
            }
        }
        thread_altstack();
        if (!hist.empty() || conc != UINT64_MAX)
        {
            std::string m, d;
            bool bad = !hist.empty() ? run_history(prop, seed, salt_of(o.property), hist, m, &d) : run_concurrent(prop, seed, salt_of(o.property), conc, kBlock, 10, m);
            printf("case: %s\n%s\n", d.c_str(), bad ? ("FAILS: " + m).c_str() : "holds");
            return bad ? 1 : 0;
        }
        Src s;
        Ctx c;
        c.reset(true);
        s.feed(ch);
        std::string m;
        bool bad = run_case(prop, s, c, m);
        printf("case: %s\n%s\n", c.desc.c_str(), bad ? ("FAILS: " + m).c_str() : "holds");
        return bad ? 1 : 0;
    }
    uint64_t n = o.cases ? o.cases : (uint64_t)((o.tier == "thorough" ? pd->thorough : pd->quick) * o.scale);
    Outcome r  = run(o, prop, n);
    std::string ev = "{\"evaluations\": " + std::to_string(r.evaluations) + ", \"distinct_nontrivial\": " + std::to_string(r.distinct) +
                     ", \"rule\": \"" + json_escape(pd->rule) + "\", \"planned\": " + std::to_string(n) +
                     ", \"excluded_known\": " + std::to_string(r.excluded) + ", \"budget_hit\": " + (r.budget_hit ? "true" : "false") +
                     ", \"classes\": {";
    bool first = true;
    for (auto& kv : r.labels)
    {
        ev += std::string(first ? "" : ", ") + "\"" + json_escape(kv.first) + "\": " + std::to_string(kv.second);
        first = false;
    }
    ev += "}, \"samples\": [";
    first = true;
    for (auto& s : r.samples)
    {
        ev += std::string(first ? "" : ", ") + "\"" + json_escape(s) + "\"";
        first = false;
    }
    ev += "], \"failed\": " + std::string(r.failed ? "true" : "false") + ", \"message\": \"" + json_escape(r.msg) + "\", \"wall\": " + std::to_string(r.wall) + "}\n";
    if (!o.evidence.empty())
        std::ofstream(o.evidence) << ev;
    fprintf(stderr, "%s: %llu cases, %llu distinct non-trivial, %.1f s%s\n", o.property.c_str(), (unsigned long long)r.evaluations,
            (unsigned long long)r.distinct, r.wall, r.budget_hit ? " (time budget reached)" : "");
    if (r.failed)
    {
        fprintf(stderr, "FAILURE after %llu shrink attempts: %s\n  case: %s\n", (unsigned long long)r.shrinks, r.msg.c_str(), r.desc.c_str());
        if (!o.replay_out.empty())
        {
            std::ofstream f(o.replay_out);
            f << "property: " << o.property << "\nseed: " << o.seed << "\nfailure: " << r.msg << "\ncase: " << r.desc << '\n';
            if (!r.history.empty())
            {
                f << "history:";
                for (auto x : r.history)
                    f << ' ' << x;
            }
            else if (r.concurrent != UINT64_MAX)
                f << "concurrent: " << r.concurrent;
            else
            {
                f << "choices:";
                for (auto x : r.choices)
                    f << ' ' << x;
            }
            f << '\n';
        }
        fflush(stdout);
        fflush(stderr);
        _exit(1);
    }
#ifdef KV_REPORT
    KV_REPORT;
#endif
    fflush(stdout);
    fflush(stderr);
    _exit(0);
}
