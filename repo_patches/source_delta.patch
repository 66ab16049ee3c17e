From 37de53a589edfbc44650d50511916996a4e99c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 01/34] fix: upper robustness bound is TOP, not BOTTOM, when an
 atom has no data at the requested time

---
 src/interval_transducer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index e88ce64..76a3f7f 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -33,7 +33,7 @@ namespace STLRom {
 #endif
         compute_robustness();
         if (z.endTime < start_time) {
-            z_up.appendSample(start_time, BOTTOM); 
+            z_up.appendSample(start_time, TOP); 
         }
         else
             z_up = z;
-- 
2.43.0


From f16e2f1a8cbe769a0343d6f42d1992b062bc27d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 02/34] fix: until stores its vacuous bound instead of leaving
 an empty signal for the enclosing operators

---
 src/interval_transducer.cpp | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index 76a3f7f..a21c568 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -297,8 +297,14 @@ namespace STLRom {
         if (!get_param(I->begin_str,a)) a = I->begin;
         if (!get_param(I->end_str,b)) b = I->end;
         
-        if (childL->compute_lower_rob()==BOTTOM) return BOTTOM;
-        if (childR->compute_lower_rob()==BOTTOM) return BOTTOM;
+        if (childL->compute_lower_rob()==BOTTOM) {
+            z_low.appendSample(start_time, BOTTOM);
+            return BOTTOM;
+        }
+        if (childR->compute_lower_rob()==BOTTOM) {
+            z_low.appendSample(start_time, BOTTOM);
+            return BOTTOM;
+        }
 
         z_low.compute_timed_until(childL->z_low,childR->z_low, a, b);
         double et =min(z_low.endTime,end_time);
@@ -306,9 +312,9 @@ namespace STLRom {
         
         
         if (z_low.empty())
-            return BOTTOM;
-        else
-            return z_low.front().value;
+            z_low.appendSample(start_time, BOTTOM);
+
+        return z_low.front().value;
 
     }
 
@@ -318,17 +324,23 @@ namespace STLRom {
         if (!get_param(I->begin_str,a)) a = I->begin;
         if (!get_param(I->end_str,b)) b = I->end;
 
-        if (childL->compute_upper_rob()==TOP) return TOP;
-        if (childR->compute_upper_rob()==TOP) return TOP;
+        if (childL->compute_upper_rob()==TOP) {
+            z_up.appendSample(start_time, TOP);
+            return TOP;
+        }
+        if (childR->compute_upper_rob()==TOP) {
+            z_up.appendSample(start_time, TOP);
+            return TOP;
+        }
 
         z_up.compute_timed_until(childL->z_up,childR->z_up, a, b);
         double et =min(z_up.endTime-b,end_time);
         z_up.resize(start_time,max(start_time,et),0.);
 
         if (z_up.empty())
-            return TOP;
-        else
-            return z_up.front().value;
+            z_up.appendSample(start_time, TOP);
+
+        return z_up.front().value;
     }
 
 }
-- 
2.43.0


From ee8871298b63aceb078e1e0c2f1cd58a63ce8a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 03/34] fix: computing a bound does not recompute a node's
 robustness, which would apply time semantics twice

---
 src/interval_transducer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index a21c568..8084e96 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -14,7 +14,9 @@ namespace STLRom {
 #ifdef DEBUG__
         printf(">  transducer:computer_lower_rob              IN.\n");
 #endif
-        compute_robustness();
+        // already computed: computing again would apply time semantics twice
+        if (z.empty())
+            compute_robustness();
         if (z.endTime < start_time) {
             
             z_low.appendSample(start_time, BOTTOM); 
@@ -31,7 +33,9 @@ namespace STLRom {
 #ifdef DEBUG__
         printf( ">  transducer:computer_upper_rob              IN.\n");
 #endif
-        compute_robustness();
+        // already computed: computing again would apply time semantics twice
+        if (z.empty())
+            compute_robustness();
         if (z.endTime < start_time) {
             z_up.appendSample(start_time, TOP); 
         }
-- 
2.43.0


From f2417f4abdc0661d9d535857bf366a0e16c0b271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 04/34] fix: the boolean view of a one-point signal keeps its
 only sample

---
 src/robustness.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 7ccd64d..d1cd10c 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -48,7 +48,7 @@ void Signal::compute_boolean(const Signal &y) {
 		}
 	}
 	simplify();
-	if (!empty() && back().time == endTime) {
+	if (size() > 1 && back().time == endTime) {
 		pop_back();
 	}
 }
-- 
2.43.0


From c5ae0cb7adb490c5c6857a9609a3a6d053d79b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 05/34] fix: right time robustness finds the last segment in
 the signal it iterates

---
 src/robustness.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index d1cd10c..9c91be9 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -90,7 +90,7 @@ void Signal::compute_right_time_rob(const Signal &y) {
 		double next_time;
 		auto next_i = std::next(i);
 		
-		if (next_i == y.end())
+		if (next_i == y_bool.end())
 			next_time = endTime;
 		else 
 			next_time = next_i->time;
-- 
2.43.0


From 89c833bc3066ffe9f0906fd79e6dbd305a843f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 06/34] fix: dump() and run_tests() give every node of a
 formula its data, parameters and settings before evaluating it

---
 src/stl_driver.cpp | 1225 ++++++++++++++++++++++----------------------
 1 file changed, 619 insertions(+), 606 deletions(-)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index d5bd812..114bbb9 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -1,606 +1,619 @@
-// $Id: stl_driver.cpp 378 2014-04-27 17:47:40Z donze $
-/** \file driver.cc Implementation of the example::Driver class. */
-
-#include "stdafx.h"
-#include <fstream>
-#include <sstream>
-
-#include "stl_driver.h"
-#include "transducer.h"
-#include "stl_scanner.h"
-#include <memory>
-
-namespace STLRom
-{
-
-	map<string, token_type> STLDriver::reserved = map<string, token_type>(); // filled in stl_scanner.lpp
-
-	STLDriver::STLDriver()
-		: interpol(Interpol::LINEAR),
-		  semantics(Semantics::SPACE),
-		  trace_scanning(false),
-		  trace_parsing(false),
-		  report(""),
-		  lexer(nullptr),
-		  nb_test_total(0),
-		  nb_test_pos(0),
-		  error_flag(false)
-	{
-	}
-
-	STLDriver::STLDriver(trace_data _trace)
-		: interpol(Interpol::LINEAR),
-		  semantics(Semantics::SPACE),
-		  data(std::move(_trace)),
-		  trace_scanning(false),
-		  trace_parsing(false),
-		  report(""),
-		  lexer(nullptr),
-		  nb_test_total(0),
-		  nb_test_pos(0),
-		  error_flag(false)
-	{
-	}
-
-	STLDriver::~STLDriver()
-	{
-		for (auto &pair : formula_map)
-		{
-			delete pair.second;
-		}
-	}
-
-	STLDriver::STLDriver(const STLDriver &other)
-		: semantics(other.semantics),
-		  interpol(other.interpol),
-		  trace_scanning(other.trace_scanning),
-		  trace_parsing(other.trace_parsing),
-		  streamname(other.streamname),
-		  param_map(other.param_map),
-		  signal_map(other.signal_map),
-		  data(other.data),
-		  stl_test_map(other.stl_test_map),
-		  trace_test_queue(other.trace_test_queue),
-		  report(other.report),
-		  test_log(other.test_log),
-		  nb_test_pos(other.nb_test_pos),
-		  nb_test_total(other.nb_test_total),
-		  error_flag(other.error_flag)
-	{
-
-		for (const auto &pair : other.formula_map)
-		{
-			formula_map[pair.first] = pair.second->clone();
-		}
-	}
-
-	STLDriver &STLDriver::operator=(const STLDriver &other)
-	{
-		if (this != &other)
-		{
-			semantics = other.semantics;
-			interpol = other.interpol;
-			trace_scanning = other.trace_scanning;
-			trace_parsing = other.trace_parsing;
-			streamname = other.streamname;
-			param_map = other.param_map;
-			signal_map = other.signal_map;
-			data = other.data;
-			stl_test_map = other.stl_test_map;
-			trace_test_queue = other.trace_test_queue;
-			report = other.report;
-			test_log = other.test_log;
-			nb_test_pos = other.nb_test_pos;
-			nb_test_total = other.nb_test_total;
-			error_flag = other.error_flag;
-
-			for (auto &pair : formula_map)
-			{
-				delete pair.second;
-			}
-			formula_map.clear();
-
-			for (const auto &pair : other.formula_map)
-			{
-				formula_map[pair.first] = pair.second->clone();
-			}
-		}
-		return *this;
-	}
-
-	STLDriver::STLDriver(STLDriver &&other) noexcept
-		: semantics(other.semantics), interpol(other.interpol), trace_scanning(other.trace_scanning), trace_parsing(other.trace_parsing), streamname(std::move(other.streamname)), param_map(std::move(other.param_map)),
-		  signal_map(std::move(other.signal_map)), formula_map(std::move(other.formula_map)), data(std::move(other.data)), stl_test_map(std::move(other.stl_test_map)),
-		  trace_test_queue(std::move(other.trace_test_queue)), report(std::move(other.report)), test_log(std::move(other.test_log)), nb_test_pos(other.nb_test_pos),
-		  nb_test_total(other.nb_test_total), error_flag(other.error_flag)
-	{
-		other.formula_map.clear();
-	}
-
-	STLDriver &STLDriver::operator=(STLDriver &&other) noexcept
-	{
-		if (this != &other)
-		{
-			semantics = other.semantics;
-			interpol = other.interpol;
-			trace_scanning = other.trace_scanning;
-			trace_parsing = other.trace_parsing;
-			streamname = std::move(other.streamname);
-			param_map = std::move(other.param_map);
-			signal_map = std::move(other.signal_map);
-			data = std::move(other.data);
-			stl_test_map = std::move(other.stl_test_map);
-			trace_test_queue = std::move(other.trace_test_queue);
-			report = std::move(other.report);
-			test_log = std::move(other.test_log);
-			nb_test_pos = other.nb_test_pos;
-			nb_test_total = other.nb_test_total;
-			error_flag = other.error_flag;
-
-			for (auto &pair : formula_map)
-			{
-				delete pair.second;
-			}
-			formula_map = std::move(other.formula_map);
-			other.formula_map.clear();
-		}
-		return *this;
-	}
-
-	bool STLDriver::parse_stream(std::istream &in)
-	{
-		Scanner scanner(&in);
-		scanner.set_debug(trace_scanning);
-		this->lexer = &scanner;
-
-		Parser parser(*this);
-		parser.set_debug_level(trace_parsing);
-
-		return (parser.parse() == 0);
-	}
-
-	bool STLDriver::parse_file(const std::string &filename)
-	{
-		std::ifstream in(filename.c_str());
-		if (!in.good())
-			return false;
-		return parse_stream(in);
-	}
-
-	bool STLDriver::parse_string(const std::string &input)
-	{
-		std::istringstream iss(input);
-		return parse_stream(iss);
-	}
-
-	/** Error handling with associated line number. This can be modified to
-	 * output the error e.g. to a dialog box. */
-	void STLDriver::error(const class location &l,
-						  const std::string &m)
-	{
-		std::cerr << l << ": " << m << std::endl;
-	}
-
-	/** General error handling. This can be modified to output the error
-	 * e.g. to a dialog box. */
-	void STLDriver::error(const std::string &m)
-	{
-		std::cerr << m << std::endl;
-	}
-
-	string STLDriver::get_signals_names() const
-	{
-		return signal_map_to_string(signal_map);
-	}
-
-	/** clear assigned formulas and trace_test_queue */
-	void STLDriver::clear()
-	{
-
-		for (auto formula = formula_map.begin(); formula != formula_map.end(); formula++)
-		{
-			if (formula->second != 0)
-			{
-				delete formula->second;
-				formula->second = 0;
-			}
-		}
-
-		for (auto stest = stl_test_map.begin(); stest != stl_test_map.end(); stest++)
-		{
-			if (stest->second.formula != 0)
-			{
-				delete stest->second.formula;
-				stest->second.formula = 0;
-			}
-		}
-
-		formula_map.clear();
-		param_map.clear();
-		stl_test_map.clear();
-
-		while (!trace_test_queue.empty())
-		{
-			transducer *formula = get_next_formula();
-			while (formula != nullptr)
-			{
-				delete formula;
-				trace_test_queue.front().tests.pop_front();
-				formula = get_next_formula();
-			}
-			trace_test_queue.pop_front();
-		}
-		report.clear();
-		test_log.clear();
-		error_flag = false;
-
-		nb_test_total = 0;
-		nb_test_pos = 0;
-	}
-
-	void STLDriver::print(ostream &out) const
-	{
-
-		out << "\nAssigned formulas:" << endl;
-		out << "-------------------" << endl;
-
-		for (auto formula = formula_map.begin(); formula != formula_map.end(); formula++)
-		{
-			out << formula->first << ":" << endl;
-			out << *(formula->second) << endl;
-		}
-
-		out << "\nDefault Parameters:" << endl;
-		out << "---------------------" << endl;
-
-		for (auto param = param_map.begin(); param != param_map.end(); param++)
-		{
-			out << param->first << "=";
-			out << param->second << endl;
-		}
-
-		// Not using tests at the moments, will see if we keep/update them...
-		// out << "\nTrace tests:" << endl;
-		// out << "---------------" << endl;
-
-		// string indent = "    ";
-		// for (auto it = trace_test_queue.begin(); it != trace_test_queue.end(); it++)
-		// {
-
-		// 	out << (*it).id << ": ";
-		// 	out << (*it).env << ", ";
-		// 	out << "SimTime: " << (*it).sim_time << " Visu:" << (*it).visu << endl;
-		// 	for (auto its = (*it).tests.begin(); its != (*it).tests.end(); its++)
-		// 	{
-		// 		// transducer->param_map =  param_map; FIXME probably needs a set_param for transducers
-		// 		out << indent << its->test_id << endl;
-		// 		for (auto elem = its->param_map.begin(); elem != its->param_map.end(); elem++)
-		// 			out << indent << indent << elem->first << "=" << elem->second << endl;
-
-		// 		out << indent << indent << *(*its).formula << endl;
-		// 	}
-		// 	out << endl;
-		// }
-		out << endl;
-	}
-
-	/** compute robustness for all formulas defined in the driver and write results in files */
-	void STLDriver::dump()
-	{
-
-		// transducer::param_map = param_map; FIXME
-
-		for (auto formula = formula_map.begin(); formula != formula_map.end(); formula++)
-		{
-			formula->second->trace_data_ptr = &data;
-			formula->second->init_horizon();
-			formula->second->compute_robustness();
-			(formula->second->z).dumpFile(formula->first + ".out");
-		}
-	}
-
-	/** run all stl tests for the next trace_test and write results in report */
-	bool STLDriver::run_tests()
-	{
-
-		error_flag = false;
-		string indent("    ");
-		if (!trace_test_queue.empty())
-		{
-
-			const stl_test *curr_test = get_next_stl_test();
-			transducer *formula = get_next_formula();
-
-			report.append("stl_test " + trace_test_queue.front().id + "\n");
-
-			// Initialize global parameters
-			// transducer->param_map =  param_map; FIXME
-
-			while (formula != nullptr)
-			{
-
-				// initialize local parameters FIXME
-				// for (auto elem = curr_test->param_map.begin(); elem != curr_test->param_map.end(); elem++){
-				//	transducer->param_map[elem->first] = elem->second;
-				//}
-
-				formula->trace_data_ptr = &data;
-				formula->init_horizon();
-				double rob = formula->compute_robustness();
-
-				test_log.append(curr_test->test_id + ": " + d_to_s(rob) + "\n");
-				report.append(indent + curr_test->test_id + ": " + d_to_s(rob));
-
-				if (rob > 0.)
-				{
-					nb_test_pos++;
-					report += "  --> PB\n";
-					if (!curr_test->report_positive.empty())
-						report += indent + curr_test->report_positive + "\n";
-					if (curr_test->is_error)
-						error_flag = true;
-				}
-				else
-				{
-					report += "  --> OK\n";
-					if (!curr_test->report_negative.empty())
-						report += indent + curr_test->report_negative + "\n";
-				}
-
-				// delete formula;
-				trace_test_queue.front().tests.pop_front();
-				formula = get_next_formula();
-				curr_test = get_next_stl_test();
-			}
-		}
-		report += "\n";
-		trace_test_queue.pop_front();
-		return error_flag;
-	}
-
-	void STLDriver::add_trace_test(const string &test_id, const string &trace_cfg, double sim_time, bool visu)
-	{
-		trace_test T;
-		T.id = test_id;
-		T.env = trace_cfg;
-		T.sim_time = sim_time;
-		T.visu = visu;
-		trace_test_queue.push_back(T);
-	}
-
-	double STLDriver::get_param(const string &param)
-	{
-		if (param_map.find(param) != param_map.end())
-		{
-			return param_map[param];
-		}
-		return 0;
-	}
-
-	void STLDriver::set_param(const string &param, double n)
-	{
-		// Update param map
-		if (param_map.find(param) != param_map.end())
-		{
-			param_map[param] = n;
-		}
-		// Update param map for all formulas
-		for (auto it = formula_map.begin(); it != formula_map.end(); it++)
-		{
-			((*it).second)->set_param(param, n);
-		}
-	}
-
-	/** Note: test inserted in the stl_test_map have no local parameters */
-	void STLDriver::add_stl_test(const string &test_id)
-	{
-
-		nb_test_total++;
-		if (!trace_test_queue.empty())
-		{
-			map<string, stl_test>::iterator elem;
-			if ((elem = stl_test_map.find(test_id)) != stl_test_map.end())
-			{
-				trace_test_queue.back().tests.push_back(elem->second);
-				trace_test_queue.back().tests.back().formula = (elem->second).formula->clone();
-				trace_test_queue.back().tests.back().param_map.clear();
-			}
-		}
-	}
-
-	void STLDriver::add_stl_test(const string &test_id, const map<string, double> &local_param_map)
-	{
-
-		nb_test_total++;
-		if (!trace_test_queue.empty())
-		{
-			map<string, stl_test>::iterator elem;
-			if ((elem = stl_test_map.find(test_id)) != stl_test_map.end())
-			{
-
-				//			cout << "Test " << elem->first;
-				//			if (!local_param_map.empty()) {
-				//				cout << " with local param:" << endl;
-				//				for (auto elemp = local_param_map.begin(); elemp != local_param_map.end(); elemp++)
-				//					cout << elemp->first << "=" <<  elemp->second << endl;
-				//			}
-				//			else
-				//				cout << endl;
-
-				trace_test_queue.back().tests.push_back(elem->second);
-				trace_test_queue.back().tests.back().formula = (elem->second).formula->clone();
-				trace_test_queue.back().tests.back().param_map = local_param_map;
-			}
-		}
-	}
-
-	void STLDriver::add_stl_test(const string &test_id, const map<string, double> &local_param_map, transducer *formula, const string &report_pos,
-								 const string &report_neg, bool is_err)
-	{
-
-		nb_test_total++;
-		if (!trace_test_queue.empty())
-		{
-			//		cout << "Inserting test " << test_id;
-			//		if (!local_param_map.empty()) {
-			//			cout << " with local param:" << endl;
-			//			for (auto elemp = local_param_map.begin(); elemp != local_param_map.end(); elemp++)
-			//				cout << elemp->first << "=" <<  elemp->second << endl;
-			//		}
-			//		else
-			//			cout << endl;
-
-			stl_test_map[test_id] = stl_test(test_id, local_param_map, formula->clone(), report_pos, report_neg, is_err);
-			stl_test_map[test_id].param_map = local_param_map;
-			stl_test_map[test_id].formula = formula->clone();
-			trace_test_queue.back().tests.push_back(stl_test_map[test_id]);
-			trace_test_queue.back().tests.back().formula = formula->clone();
-		}
-	}
-
-	void STLDriver::add_sample(vector<double> s)
-	{
-		if (s.size() != signal_map.size() + 1)
-		{
-			throw std::invalid_argument("Sample size does not match the number of signals.");
-		}
-		if (!data.empty() && s[0] <= data.back()[0])
-		{
-			throw std::invalid_argument("Sample time must be strictly greater than the last sample time.");
-		}
-		data.push_back(s);
-	}
-
-	STLMonitor STLDriver::get_monitor(const string &id) const
-	{
-		STLMonitor phi;
-		auto it = formula_map.find(id); // FYI was map<string,transducer*>::const_iterator it;
-
-		if (it != formula_map.end() && it->second != nullptr)
-		{
-			if (it->second != nullptr)
-			{
-				try
-				{
-					phi.interpol = interpol;
-					phi.semantics = semantics;
-					phi.data = data;
-					phi.formula = (it->second)->clone();
-					phi.signal_map = signal_map;
-					phi.param_map = param_map;
-					phi.start_time = 0.;
-					phi.end_time = 0.;
-					phi.rob = 0.;
-					phi.lower_rob = -Signal::BigM;
-					phi.upper_rob = Signal::BigM;
-				}
-				catch (const std::exception &e)
-				{
-					std::cerr << "Error while cloning or setting up the formula: " << e.what() << std::endl;
-					// Handle the error appropriately, possibly by returning an empty or default-initialized STLMonitor
-					return STLMonitor();
-				}
-			}
-		}
-		else
-		{
-			cout << "WARNING: Formula " << id << " undefined." << endl;
-		}
-
-		return phi;
-	}
-
-	vector<double> STLDriver::get_online_rob(const string &phi_in, double t0 = 0.)
-	{
-		// static vector<double> out_rob;
-		vector<double> out_rob;
-		if (data.empty())
-		{
-			cout << "Empty data" << endl;
-			return out_rob;
-		}
-
-		if (formula_map.find(phi_in) == formula_map.end())
-		{
-			cout << "Formula " << phi_in << " not found in formula_map." << endl;
-			return out_rob;
-		}
-		transducer *phi = formula_map[phi_in];
-		phi->set_trace_data_ptr(data);
-		phi->set_param_map_ptr(param_map);
-		Signal::semantics = semantics;
-		Signal::interpol = interpol;
-		phi->reset();
-		phi->set_horizon(t0, t0);
-		double rob = phi->compute_robustness();
-		double lower_rob = phi->compute_lower_rob();
-		double upper_rob = phi->compute_upper_rob();
-		out_rob = {rob, lower_rob, upper_rob};
-
-		return out_rob;
-	}
-
-	vector<double> STLDriver::get_online_rob(const string &phi_in)
-	{
-		return get_online_rob(phi_in, 0.);
-	}
-
-	void STLDriver::print_trace(ostream &os)
-	{
-		for (auto ii = data.begin(); ii != data.end(); ii++)
-		{
-			for (auto jj = (*ii).begin(); jj != (*ii).end(); jj++)
-			{
-				os << *jj << " ";
-			}
-			os << endl;
-		}
-	}
-
-	void STLDriver::print_trace()
-	{
-		print_trace(cout);
-	}
-
-	void STLDriver::dump_trace_file(const string &filename)
-	{
-		fstream ofs;
-		ofs.open(filename.c_str(), std::ofstream::out);
-		if (ofs.is_open())
-		{
-			for (auto ii = data.begin(); ii != data.end(); ii++)
-			{
-				for (auto jj = (*ii).begin(); jj != (*ii).end(); jj++)
-				{
-					ofs << *jj << " ";
-				}
-				ofs << endl;
-			}
-			ofs.close();
-		}
-		else
-		{
-			cout << "Couldn't open file " << filename.c_str() << " for writing signal" << endl; // TODO implement exception
-		}
-	}
-
-	bool STLDriver::dump_test_log_file(const string &filename)
-	{
-
-		fstream ofs;
-		ofs.open(filename.c_str(), std::ofstream::out);
-		if (ofs.is_open())
-		{
-			ofs << test_log << endl;
-			ofs << "Number of positive STL tests: " << nb_test_pos << "/" << nb_test_total;
-			ofs.close();
-			return true;
-		}
-		else
-		{
-			cout << "Couldn't open file " << filename.c_str() << " for writing signal" << endl; // TODO implement exception
-			return false;
-		}
-	}
-
-} // namespace STLRom
+// $Id: stl_driver.cpp 378 2014-04-27 17:47:40Z donze $
+/** \file driver.cc Implementation of the example::Driver class. */
+
+#include "stdafx.h"
+#include <fstream>
+#include <sstream>
+
+#include "stl_driver.h"
+#include "transducer.h"
+#include "stl_scanner.h"
+#include <memory>
+
+namespace STLRom
+{
+
+	map<string, token_type> STLDriver::reserved = map<string, token_type>(); // filled in stl_scanner.lpp
+
+	STLDriver::STLDriver()
+		: interpol(Interpol::LINEAR),
+		  semantics(Semantics::SPACE),
+		  trace_scanning(false),
+		  trace_parsing(false),
+		  report(""),
+		  lexer(nullptr),
+		  nb_test_total(0),
+		  nb_test_pos(0),
+		  error_flag(false)
+	{
+	}
+
+	STLDriver::STLDriver(trace_data _trace)
+		: interpol(Interpol::LINEAR),
+		  semantics(Semantics::SPACE),
+		  data(std::move(_trace)),
+		  trace_scanning(false),
+		  trace_parsing(false),
+		  report(""),
+		  lexer(nullptr),
+		  nb_test_total(0),
+		  nb_test_pos(0),
+		  error_flag(false)
+	{
+	}
+
+	STLDriver::~STLDriver()
+	{
+		for (auto &pair : formula_map)
+		{
+			delete pair.second;
+		}
+	}
+
+	STLDriver::STLDriver(const STLDriver &other)
+		: semantics(other.semantics),
+		  interpol(other.interpol),
+		  trace_scanning(other.trace_scanning),
+		  trace_parsing(other.trace_parsing),
+		  streamname(other.streamname),
+		  param_map(other.param_map),
+		  signal_map(other.signal_map),
+		  data(other.data),
+		  stl_test_map(other.stl_test_map),
+		  trace_test_queue(other.trace_test_queue),
+		  report(other.report),
+		  test_log(other.test_log),
+		  nb_test_pos(other.nb_test_pos),
+		  nb_test_total(other.nb_test_total),
+		  error_flag(other.error_flag)
+	{
+
+		for (const auto &pair : other.formula_map)
+		{
+			formula_map[pair.first] = pair.second->clone();
+		}
+	}
+
+	STLDriver &STLDriver::operator=(const STLDriver &other)
+	{
+		if (this != &other)
+		{
+			semantics = other.semantics;
+			interpol = other.interpol;
+			trace_scanning = other.trace_scanning;
+			trace_parsing = other.trace_parsing;
+			streamname = other.streamname;
+			param_map = other.param_map;
+			signal_map = other.signal_map;
+			data = other.data;
+			stl_test_map = other.stl_test_map;
+			trace_test_queue = other.trace_test_queue;
+			report = other.report;
+			test_log = other.test_log;
+			nb_test_pos = other.nb_test_pos;
+			nb_test_total = other.nb_test_total;
+			error_flag = other.error_flag;
+
+			for (auto &pair : formula_map)
+			{
+				delete pair.second;
+			}
+			formula_map.clear();
+
+			for (const auto &pair : other.formula_map)
+			{
+				formula_map[pair.first] = pair.second->clone();
+			}
+		}
+		return *this;
+	}
+
+	STLDriver::STLDriver(STLDriver &&other) noexcept
+		: semantics(other.semantics), interpol(other.interpol), trace_scanning(other.trace_scanning), trace_parsing(other.trace_parsing), streamname(std::move(other.streamname)), param_map(std::move(other.param_map)),
+		  signal_map(std::move(other.signal_map)), formula_map(std::move(other.formula_map)), data(std::move(other.data)), stl_test_map(std::move(other.stl_test_map)),
+		  trace_test_queue(std::move(other.trace_test_queue)), report(std::move(other.report)), test_log(std::move(other.test_log)), nb_test_pos(other.nb_test_pos),
+		  nb_test_total(other.nb_test_total), error_flag(other.error_flag)
+	{
+		other.formula_map.clear();
+	}
+
+	STLDriver &STLDriver::operator=(STLDriver &&other) noexcept
+	{
+		if (this != &other)
+		{
+			semantics = other.semantics;
+			interpol = other.interpol;
+			trace_scanning = other.trace_scanning;
+			trace_parsing = other.trace_parsing;
+			streamname = std::move(other.streamname);
+			param_map = std::move(other.param_map);
+			signal_map = std::move(other.signal_map);
+			data = std::move(other.data);
+			stl_test_map = std::move(other.stl_test_map);
+			trace_test_queue = std::move(other.trace_test_queue);
+			report = std::move(other.report);
+			test_log = std::move(other.test_log);
+			nb_test_pos = other.nb_test_pos;
+			nb_test_total = other.nb_test_total;
+			error_flag = other.error_flag;
+
+			for (auto &pair : formula_map)
+			{
+				delete pair.second;
+			}
+			formula_map = std::move(other.formula_map);
+			other.formula_map.clear();
+		}
+		return *this;
+	}
+
+	bool STLDriver::parse_stream(std::istream &in)
+	{
+		Scanner scanner(&in);
+		scanner.set_debug(trace_scanning);
+		this->lexer = &scanner;
+
+		Parser parser(*this);
+		parser.set_debug_level(trace_parsing);
+
+		return (parser.parse() == 0);
+	}
+
+	bool STLDriver::parse_file(const std::string &filename)
+	{
+		std::ifstream in(filename.c_str());
+		if (!in.good())
+			return false;
+		return parse_stream(in);
+	}
+
+	bool STLDriver::parse_string(const std::string &input)
+	{
+		std::istringstream iss(input);
+		return parse_stream(iss);
+	}
+
+	/** Error handling with associated line number. This can be modified to
+	 * output the error e.g. to a dialog box. */
+	void STLDriver::error(const class location &l,
+						  const std::string &m)
+	{
+		std::cerr << l << ": " << m << std::endl;
+	}
+
+	/** General error handling. This can be modified to output the error
+	 * e.g. to a dialog box. */
+	void STLDriver::error(const std::string &m)
+	{
+		std::cerr << m << std::endl;
+	}
+
+	string STLDriver::get_signals_names() const
+	{
+		return signal_map_to_string(signal_map);
+	}
+
+	/** clear assigned formulas and trace_test_queue */
+	void STLDriver::clear()
+	{
+
+		for (auto formula = formula_map.begin(); formula != formula_map.end(); formula++)
+		{
+			if (formula->second != 0)
+			{
+				delete formula->second;
+				formula->second = 0;
+			}
+		}
+
+		for (auto stest = stl_test_map.begin(); stest != stl_test_map.end(); stest++)
+		{
+			if (stest->second.formula != 0)
+			{
+				delete stest->second.formula;
+				stest->second.formula = 0;
+			}
+		}
+
+		formula_map.clear();
+		param_map.clear();
+		stl_test_map.clear();
+
+		while (!trace_test_queue.empty())
+		{
+			transducer *formula = get_next_formula();
+			while (formula != nullptr)
+			{
+				delete formula;
+				trace_test_queue.front().tests.pop_front();
+				formula = get_next_formula();
+			}
+			trace_test_queue.pop_front();
+		}
+		report.clear();
+		test_log.clear();
+		error_flag = false;
+
+		nb_test_total = 0;
+		nb_test_pos = 0;
+	}
+
+	void STLDriver::print(ostream &out) const
+	{
+
+		out << "\nAssigned formulas:" << endl;
+		out << "-------------------" << endl;
+
+		for (auto formula = formula_map.begin(); formula != formula_map.end(); formula++)
+		{
+			out << formula->first << ":" << endl;
+			out << *(formula->second) << endl;
+		}
+
+		out << "\nDefault Parameters:" << endl;
+		out << "---------------------" << endl;
+
+		for (auto param = param_map.begin(); param != param_map.end(); param++)
+		{
+			out << param->first << "=";
+			out << param->second << endl;
+		}
+
+		// Not using tests at the moments, will see if we keep/update them...
+		// out << "\nTrace tests:" << endl;
+		// out << "---------------" << endl;
+
+		// string indent = "    ";
+		// for (auto it = trace_test_queue.begin(); it != trace_test_queue.end(); it++)
+		// {
+
+		// 	out << (*it).id << ": ";
+		// 	out << (*it).env << ", ";
+		// 	out << "SimTime: " << (*it).sim_time << " Visu:" << (*it).visu << endl;
+		// 	for (auto its = (*it).tests.begin(); its != (*it).tests.end(); its++)
+		// 	{
+		// 		// transducer->param_map =  param_map; FIXME probably needs a set_param for transducers
+		// 		out << indent << its->test_id << endl;
+		// 		for (auto elem = its->param_map.begin(); elem != its->param_map.end(); elem++)
+		// 			out << indent << indent << elem->first << "=" << elem->second << endl;
+
+		// 		out << indent << indent << *(*its).formula << endl;
+		// 	}
+		// 	out << endl;
+		// }
+		out << endl;
+	}
+
+	/** compute robustness for all formulas defined in the driver and write results in files */
+	void STLDriver::dump()
+	{
+
+		if (data.empty())
+		{
+			cout << "Empty data" << endl;
+			return;
+		}
+
+		for (auto formula = formula_map.begin(); formula != formula_map.end(); formula++)
+		{
+			transducer *phi = formula->second;
+			phi->set_trace_data_ptr(data);
+			phi->set_param_map_ptr(param_map);
+			Signal::semantics = semantics;
+			Signal::interpol = interpol;
+			phi->reset();
+			phi->set_horizon(phi->start_time, phi->end_time);
+			phi->compute_robustness();
+			(formula->second->z).dumpFile(formula->first + ".out");
+		}
+	}
+
+	/** run all stl tests for the next trace_test and write results in report */
+	bool STLDriver::run_tests()
+	{
+
+		error_flag = false;
+		string indent("    ");
+		if (!trace_test_queue.empty())
+		{
+
+			const stl_test *curr_test = get_next_stl_test();
+			transducer *formula = get_next_formula();
+
+			report.append("stl_test " + trace_test_queue.front().id + "\n");
+
+			// Initialize global parameters
+			// transducer->param_map =  param_map; FIXME
+
+			while (formula != nullptr)
+			{
+
+				// initialize local parameters FIXME
+				// for (auto elem = curr_test->param_map.begin(); elem != curr_test->param_map.end(); elem++){
+				//	transducer->param_map[elem->first] = elem->second;
+				//}
+
+				formula->set_trace_data_ptr(data);
+				formula->set_param_map_ptr(param_map);
+				Signal::semantics = semantics;
+				Signal::interpol = interpol;
+				formula->reset();
+				formula->set_horizon(formula->start_time, formula->end_time);
+				double rob = formula->compute_robustness();
+
+				test_log.append(curr_test->test_id + ": " + d_to_s(rob) + "\n");
+				report.append(indent + curr_test->test_id + ": " + d_to_s(rob));
+
+				if (rob > 0.)
+				{
+					nb_test_pos++;
+					report += "  --> PB\n";
+					if (!curr_test->report_positive.empty())
+						report += indent + curr_test->report_positive + "\n";
+					if (curr_test->is_error)
+						error_flag = true;
+				}
+				else
+				{
+					report += "  --> OK\n";
+					if (!curr_test->report_negative.empty())
+						report += indent + curr_test->report_negative + "\n";
+				}
+
+				// delete formula;
+				trace_test_queue.front().tests.pop_front();
+				formula = get_next_formula();
+				curr_test = get_next_stl_test();
+			}
+		}
+		report += "\n";
+		trace_test_queue.pop_front();
+		return error_flag;
+	}
+
+	void STLDriver::add_trace_test(const string &test_id, const string &trace_cfg, double sim_time, bool visu)
+	{
+		trace_test T;
+		T.id = test_id;
+		T.env = trace_cfg;
+		T.sim_time = sim_time;
+		T.visu = visu;
+		trace_test_queue.push_back(T);
+	}
+
+	double STLDriver::get_param(const string &param)
+	{
+		if (param_map.find(param) != param_map.end())
+		{
+			return param_map[param];
+		}
+		return 0;
+	}
+
+	void STLDriver::set_param(const string &param, double n)
+	{
+		// Update param map
+		if (param_map.find(param) != param_map.end())
+		{
+			param_map[param] = n;
+		}
+		// Update param map for all formulas
+		for (auto it = formula_map.begin(); it != formula_map.end(); it++)
+		{
+			((*it).second)->set_param(param, n);
+		}
+	}
+
+	/** Note: test inserted in the stl_test_map have no local parameters */
+	void STLDriver::add_stl_test(const string &test_id)
+	{
+
+		nb_test_total++;
+		if (!trace_test_queue.empty())
+		{
+			map<string, stl_test>::iterator elem;
+			if ((elem = stl_test_map.find(test_id)) != stl_test_map.end())
+			{
+				trace_test_queue.back().tests.push_back(elem->second);
+				trace_test_queue.back().tests.back().formula = (elem->second).formula->clone();
+				trace_test_queue.back().tests.back().param_map.clear();
+			}
+		}
+	}
+
+	void STLDriver::add_stl_test(const string &test_id, const map<string, double> &local_param_map)
+	{
+
+		nb_test_total++;
+		if (!trace_test_queue.empty())
+		{
+			map<string, stl_test>::iterator elem;
+			if ((elem = stl_test_map.find(test_id)) != stl_test_map.end())
+			{
+
+				//			cout << "Test " << elem->first;
+				//			if (!local_param_map.empty()) {
+				//				cout << " with local param:" << endl;
+				//				for (auto elemp = local_param_map.begin(); elemp != local_param_map.end(); elemp++)
+				//					cout << elemp->first << "=" <<  elemp->second << endl;
+				//			}
+				//			else
+				//				cout << endl;
+
+				trace_test_queue.back().tests.push_back(elem->second);
+				trace_test_queue.back().tests.back().formula = (elem->second).formula->clone();
+				trace_test_queue.back().tests.back().param_map = local_param_map;
+			}
+		}
+	}
+
+	void STLDriver::add_stl_test(const string &test_id, const map<string, double> &local_param_map, transducer *formula, const string &report_pos,
+								 const string &report_neg, bool is_err)
+	{
+
+		nb_test_total++;
+		if (!trace_test_queue.empty())
+		{
+			//		cout << "Inserting test " << test_id;
+			//		if (!local_param_map.empty()) {
+			//			cout << " with local param:" << endl;
+			//			for (auto elemp = local_param_map.begin(); elemp != local_param_map.end(); elemp++)
+			//				cout << elemp->first << "=" <<  elemp->second << endl;
+			//		}
+			//		else
+			//			cout << endl;
+
+			stl_test_map[test_id] = stl_test(test_id, local_param_map, formula->clone(), report_pos, report_neg, is_err);
+			stl_test_map[test_id].param_map = local_param_map;
+			stl_test_map[test_id].formula = formula->clone();
+			trace_test_queue.back().tests.push_back(stl_test_map[test_id]);
+			trace_test_queue.back().tests.back().formula = formula->clone();
+		}
+	}
+
+	void STLDriver::add_sample(vector<double> s)
+	{
+		if (s.size() != signal_map.size() + 1)
+		{
+			throw std::invalid_argument("Sample size does not match the number of signals.");
+		}
+		if (!data.empty() && s[0] <= data.back()[0])
+		{
+			throw std::invalid_argument("Sample time must be strictly greater than the last sample time.");
+		}
+		data.push_back(s);
+	}
+
+	STLMonitor STLDriver::get_monitor(const string &id) const
+	{
+		STLMonitor phi;
+		auto it = formula_map.find(id); // FYI was map<string,transducer*>::const_iterator it;
+
+		if (it != formula_map.end() && it->second != nullptr)
+		{
+			if (it->second != nullptr)
+			{
+				try
+				{
+					phi.interpol = interpol;
+					phi.semantics = semantics;
+					phi.data = data;
+					phi.formula = (it->second)->clone();
+					phi.signal_map = signal_map;
+					phi.param_map = param_map;
+					phi.start_time = 0.;
+					phi.end_time = 0.;
+					phi.rob = 0.;
+					phi.lower_rob = -Signal::BigM;
+					phi.upper_rob = Signal::BigM;
+				}
+				catch (const std::exception &e)
+				{
+					std::cerr << "Error while cloning or setting up the formula: " << e.what() << std::endl;
+					// Handle the error appropriately, possibly by returning an empty or default-initialized STLMonitor
+					return STLMonitor();
+				}
+			}
+		}
+		else
+		{
+			cout << "WARNING: Formula " << id << " undefined." << endl;
+		}
+
+		return phi;
+	}
+
+	vector<double> STLDriver::get_online_rob(const string &phi_in, double t0 = 0.)
+	{
+		// static vector<double> out_rob;
+		vector<double> out_rob;
+		if (data.empty())
+		{
+			cout << "Empty data" << endl;
+			return out_rob;
+		}
+
+		if (formula_map.find(phi_in) == formula_map.end())
+		{
+			cout << "Formula " << phi_in << " not found in formula_map." << endl;
+			return out_rob;
+		}
+		transducer *phi = formula_map[phi_in];
+		phi->set_trace_data_ptr(data);
+		phi->set_param_map_ptr(param_map);
+		Signal::semantics = semantics;
+		Signal::interpol = interpol;
+		phi->reset();
+		phi->set_horizon(t0, t0);
+		double rob = phi->compute_robustness();
+		double lower_rob = phi->compute_lower_rob();
+		double upper_rob = phi->compute_upper_rob();
+		out_rob = {rob, lower_rob, upper_rob};
+
+		return out_rob;
+	}
+
+	vector<double> STLDriver::get_online_rob(const string &phi_in)
+	{
+		return get_online_rob(phi_in, 0.);
+	}
+
+	void STLDriver::print_trace(ostream &os)
+	{
+		for (auto ii = data.begin(); ii != data.end(); ii++)
+		{
+			for (auto jj = (*ii).begin(); jj != (*ii).end(); jj++)
+			{
+				os << *jj << " ";
+			}
+			os << endl;
+		}
+	}
+
+	void STLDriver::print_trace()
+	{
+		print_trace(cout);
+	}
+
+	void STLDriver::dump_trace_file(const string &filename)
+	{
+		fstream ofs;
+		ofs.open(filename.c_str(), std::ofstream::out);
+		if (ofs.is_open())
+		{
+			for (auto ii = data.begin(); ii != data.end(); ii++)
+			{
+				for (auto jj = (*ii).begin(); jj != (*ii).end(); jj++)
+				{
+					ofs << *jj << " ";
+				}
+				ofs << endl;
+			}
+			ofs.close();
+		}
+		else
+		{
+			cout << "Couldn't open file " << filename.c_str() << " for writing signal" << endl; // TODO implement exception
+		}
+	}
+
+	bool STLDriver::dump_test_log_file(const string &filename)
+	{
+
+		fstream ofs;
+		ofs.open(filename.c_str(), std::ofstream::out);
+		if (ofs.is_open())
+		{
+			ofs << test_log << endl;
+			ofs << "Number of positive STL tests: " << nb_test_pos << "/" << nb_test_total;
+			ofs.close();
+			return true;
+		}
+		else
+		{
+			cout << "Couldn't open file " << filename.c_str() << " for writing signal" << endl; // TODO implement exception
+			return false;
+		}
+	}
+
+} // namespace STLRom
-- 
2.43.0


From 228a8e89dadae9bfdb8db6fa588ea0f6638edb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 07/34] fix: run_tests() does nothing to an empty test queue

---
 src/stl_driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index 114bbb9..8d06b76 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -365,9 +365,9 @@ namespace STLRom
 				formula = get_next_formula();
 				curr_test = get_next_stl_test();
 			}
+			trace_test_queue.pop_front();
 		}
 		report += "\n";
-		trace_test_queue.pop_front();
 		return error_flag;
 	}
 
-- 
2.43.0


From 8e221073397742d8b9fd2bc3f53434112fcf9257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 08/34] fix: copies of an stl_test own a clone of its formula
 instead of sharing the pointer both delete

---
 include/stl_driver.h | 27 +++++++++++++++++++++++++++
 src/stl_driver.cpp   |  4 ----
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/include/stl_driver.h b/include/stl_driver.h
index 34df455..0164fa8 100644
--- a/include/stl_driver.h
+++ b/include/stl_driver.h
@@ -38,6 +38,33 @@ namespace STLRom
                                                             is_error(_is_err) {
                                                             };
 
+        // a test owns its formula: copies own a clone of it
+        stl_test(const stl_test &other)
+            : test_id(other.test_id),
+              param_map(other.param_map),
+              formula(other.formula ? other.formula->clone() : nullptr),
+              report_positive(other.report_positive),
+              report_negative(other.report_negative),
+              is_error(other.is_error)
+        {
+        }
+
+        stl_test &operator=(const stl_test &other)
+        {
+            if (this != &other)
+            {
+                transducer *copy = other.formula ? other.formula->clone() : nullptr;
+                delete formula;
+                formula = copy;
+                test_id = other.test_id;
+                param_map = other.param_map;
+                report_positive = other.report_positive;
+                report_negative = other.report_negative;
+                is_error = other.is_error;
+            }
+            return *this;
+        }
+
         ~stl_test()
         {
             delete formula;
diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index 8d06b76..2bc5b81 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -415,7 +415,6 @@ namespace STLRom
 			if ((elem = stl_test_map.find(test_id)) != stl_test_map.end())
 			{
 				trace_test_queue.back().tests.push_back(elem->second);
-				trace_test_queue.back().tests.back().formula = (elem->second).formula->clone();
 				trace_test_queue.back().tests.back().param_map.clear();
 			}
 		}
@@ -441,7 +440,6 @@ namespace STLRom
 				//				cout << endl;
 
 				trace_test_queue.back().tests.push_back(elem->second);
-				trace_test_queue.back().tests.back().formula = (elem->second).formula->clone();
 				trace_test_queue.back().tests.back().param_map = local_param_map;
 			}
 		}
@@ -465,9 +463,7 @@ namespace STLRom
 
 			stl_test_map[test_id] = stl_test(test_id, local_param_map, formula->clone(), report_pos, report_neg, is_err);
 			stl_test_map[test_id].param_map = local_param_map;
-			stl_test_map[test_id].formula = formula->clone();
 			trace_test_queue.back().tests.push_back(stl_test_map[test_id]);
-			trace_test_queue.back().tests.back().formula = formula->clone();
 		}
 	}
 
-- 
2.43.0


From 4685c010db52c05889cc9380b24b134780a26aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 09/34] fix: clear() does not delete the formulas of queued
 tests a second time

---
 src/stl_driver.cpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index 2bc5b81..91063ef 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -219,17 +219,8 @@ namespace STLRom
 		param_map.clear();
 		stl_test_map.clear();
 
-		while (!trace_test_queue.empty())
-		{
-			transducer *formula = get_next_formula();
-			while (formula != nullptr)
-			{
-				delete formula;
-				trace_test_queue.front().tests.pop_front();
-				formula = get_next_formula();
-			}
-			trace_test_queue.pop_front();
-		}
+		// the queued tests own (and delete) their formulas
+		trace_test_queue.clear();
 		report.clear();
 		test_log.clear();
 		error_flag = false;
-- 
2.43.0


From c3d81af6630f54c2cd303204bbebfabf31eee41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 10/34] fix: running maximum meets a falling segment at the
 right time when the segment starts before the window

---
 src/robustness.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 9c91be9..6f77539 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -1216,7 +1216,7 @@ void computePartialEventually(Signal* z, Signal::const_reverse_iterator & i, dou
 	} else if (z_max >= i->valueAt(s)) {
 		z->push_front(Sample(s, z_max, 0));
 	} else {
-		z->push_front(Sample(s + (z_max - i->value) / i->derivative, z_max, 0)); //time at which y reaches value next_z
+		z->push_front(Sample(i->time + (z_max - i->value) / i->derivative, z_max, 0)); //time at which y reaches value next_z
 		z->push_front(Sample(s, i->valueAt(s), i->derivative));
 	}
 
-- 
2.43.0


From b63331f0e1b8cdd34ed41008f86f848d2d1245aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 11/34] fix: timed until compares its interval with the data
 from its own start, not from time 0

---
 src/robustness.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 6f77539..708cb61 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -384,12 +384,15 @@ void Signal::compute_timed_until(const Signal& x , const Signal& y, double a, do
 	}
 
 
-	if(b > std::min(y1.endTime, y2.endTime))
+	// the operands do not start at time 0 when the formula is evaluated later
+	double available = std::min(y1.endTime, y2.endTime) - std::max(y1.beginTime, y2.beginTime - a);
+
+	if(b > available)
 	{
 		if (a==0)
 			yunt = computeUntil(&y1,&y2);
 		else
-			if (a > y1.endTime) {
+			if (a > y1.endTime - y1.beginTime) {
 				yunt = computeGlobally(&y1);
 			}
 			else
-- 
2.43.0


From 39885961f70163e7d699130bad0b0bac6171a19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 12/34] fix: and, or and until stop at the first sample when
 the signals have only one instant in common

---
 src/robustness.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 708cb61..1f05131 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -204,9 +204,9 @@ void Signal::compute_until(const Signal &x, const Signal &y) {
 	beginTime = fmax(x.beginTime, y.beginTime);
 	endTime = fmin(x.endTime, y.endTime);
 
-	while (i->time >= endTime)
+	while ((i->time >= endTime) && i != x.rend()-1)
 		i++;
-	while (j->time >= endTime)
+	while ((j->time >= endTime) && j != y.rend()-1)
 		j++;
 
 	s = beginTime;
@@ -682,9 +682,9 @@ Signal * computeAnd(Signal * x, Signal * y) {
 	z->beginTime = fmax(x->beginTime, y->beginTime);
 	z->endTime = fmin(x->endTime, y->endTime);
 
-	while (i->time >= z->endTime)
+	while ((i->time >= z->endTime) && i != x->rend()-1)
 		i++;
-	while (j->time >= z->endTime)
+	while ((j->time >= z->endTime) && j != y->rend()-1)
 		j++;
 
 	computePartialAnd(z, i, j, z->beginTime, z->endTime);
@@ -717,9 +717,9 @@ Signal * computeOr(Signal * x, Signal * y) {
 #endif
 
 
-	while (i->time >= z->endTime)
+	while ((i->time >= z->endTime) && i != x->rend()-1)
 		i++;
-	while (j->time >= z->endTime)
+	while ((j->time >= z->endTime) && j != y->rend()-1)
 		j++;
 
 
@@ -809,9 +809,9 @@ Signal * computeUntil(Signal * x, Signal * y) {
 	z->beginTime = fmax(x->beginTime, y->beginTime);
 	z->endTime = fmin(x->endTime, y->endTime);
 
-	while (i->time >= z->endTime)
+	while ((i->time >= z->endTime) && i != x->rend()-1)
 		i++;
-	while (j->time >= z->endTime)
+	while ((j->time >= z->endTime) && j != y->rend()-1)
 		j++;
 
 	s = z->beginTime;
-- 
2.43.0


From 116b3c3769ea350b44e949fdba43edd5dd89d0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH 13/34] fix: compute_eventually and compute_until drop the
 samples of an earlier result first

---
 src/robustness.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 1f05131..76e1b1a 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -163,6 +163,7 @@ void Signal::compute_implies(const Signal &x, const Signal &y) {
 
 void Signal::compute_eventually(const Signal &x) {
 
+	clear();
 	beginTime = x.beginTime;
 	endTime = x.endTime;
 	Signal::const_reverse_iterator i = x.rbegin();
@@ -198,6 +199,7 @@ void Signal::compute_until(const Signal &x, const Signal &y) {
 	double s, t;
 	double z_max = BOTTOM;
 
+	clear();
 	Signal::const_reverse_iterator i = x.rbegin();
 	Signal::const_reverse_iterator j = y.rbegin();
 
-- 
2.43.0


From 46a65a1522a142019db270878580a9ad1ac59017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH 14/34] fix: computeTimedUntil does not allocate a signal it
 never uses or frees

---
 src/robustness.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 76e1b1a..5310285 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -908,8 +908,6 @@ Signal * computeBoundedGlobally(Signal * x, double a) {
 Signal * computeTimedUntil(Signal * x, Signal * y, double a, double b) {
 	Signal *z, *z2, *z3, *z4;
 
-	z = new Signal();
-
 	z2 = computeBoundedEventually(y, b - a);
 
 	z3 = computeUntil(x, y);
-- 
2.43.0


From a6c844e30f6ecd9f19e0cca8e1ad00ee3832395e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 15/34] fix: the bounded operators of Signal window their
 operand instead of an empty signal

---
 src/robustness.cpp | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 5310285..3c4eccd 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -250,15 +250,10 @@ void Signal::compute_bounded_eventually(const Signal& x, double a) {
 		return;
 	}
 
-	Signal z1, z2, z3;
-
-	z1.compute_plateau_max(x, a);
-	z2.resize(x.beginTime + a, x.endTime + a, BOTTOM);
-	z2.shift(-a);
-	z3.compute_or(z2, z1);
-
-	compute_or(x, z3);
-	simplify();
+	Signal y = x;
+	Signal *rob = computeBoundedEventually(&y, a);
+	*this = *rob;
+	delete rob;
 
   #ifdef DEBUG__
 	cout << "<  Signal::compute_bounded_eventually         OUT." << endl;
@@ -318,15 +313,10 @@ void Signal::compute_bounded_globally(const Signal& x, double a) {
 		return;
 	}
 
-	Signal z1, z2, z3;
-
-	z1.compute_plateau_min(x, a);
-	z2.resize(x.beginTime + a, x.endTime + a, TOP);
-	z2.shift(-a);
-	z3.compute_and(z2, z1);
-
-	compute_and(x, z3);
-	simplify();
+	Signal y = x;
+	Signal *rob = computeBoundedGlobally(&y, a);
+	*this = *rob;
+	delete rob;
 
 }
 
-- 
2.43.0


From 00fee227a183da42bd0f5a3980383d925d6b9cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 16/34] fix: the plateau operators of Signal compute the same
 windows as plateauMax and plateauMin

---
 src/robustness.cpp | 243 ++-------------------------------------------
 1 file changed, 8 insertions(+), 235 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 3c4eccd..3bf8047 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -405,245 +405,18 @@ void Signal::compute_timed_until(const Signal& x , const Signal& y, double a, do
 
 }
 
-// TODO fix and use this version of plateau max...
 void Signal::compute_plateau_max(const Signal &x, double a) {
-   #ifdef DEBUG__
-	cout << "Entering compute_plateau_max" << endl;
-   #endif
-	bool new_candidate = true, end_candidate = true;
-	double t, v;
-	Signal::const_reverse_iterator j;
-	Sequence M; //sorted in ascending times from front to back
-	Sequence y; //maximum of x(t) and x(t-) at discontinuity points of x
-	Sequence::iterator i;
-
-	clear();
-
-	beginTime = x.beginTime;
-	endTime = x.endTime;
-
-	//PRECOMPUTATION: list the local maximums of x
-	t = x.endTime;
-	v = BOTTOM;
-	for (j = x.rbegin(); j != x.rend(); j++) {
-		y.push_front(Point(t, fmax(v, j->valueAt(t))));
-		//    cout << "y.time:" << y.front().time << " y->value:" << y.front().value << endl;
-		t = j->time;
-		v = j->value;
-	}
-	y.push_front(Point(x.front().time, x.front().value));
-
-	//INIT: read values in [0, a)
-	i = y.begin();
-
-	while (i->time < x.beginTime + a) {
-		while (!M.empty() && i->value >= M.back().value) {
-			M.pop_back();
-		}
-		//    cout << "i->time:" << i->time << " i->value:" << i->value << endl;
-
-		M.push_back(*i);
-		i++;
-	}
-
-	if (i->time == x.beginTime + a)
-		new_candidate = true;
-	else
-		new_candidate = false;
-
-	end_candidate = false;
-	t = x.beginTime;
-
-	// push first element in M
-	push_back(Sample(t, M.front().value, 0));
-
-	//STEP
-	bool cont = true;
-	while (cont) {
-		//UPDATE OF CANDIDATE LIST
-		//candidate crosses t: remove it from list
-		if (end_candidate) {
-			//      cout << "end_candidate: M.pop front" << endl;
-			M.pop_front();
-		}
-
-		//sample crosses t+a: add it to candidate list
-		if (new_candidate) {
-			//cout << "new_candidate: doing stuff" << endl;
-			while (!M.empty() && i->value >= M.back().value) {
-				M.pop_back();
-			}
-			//detect if new maximum is found
-			if (!M.empty()) {
-				//if M non empty then t + a does not generate new maximum
-				new_candidate = false;
-			}
-			//add candidate
-			M.push_back(*i);
-
-			//increment iterator
-			i++;
-		}
-
-		//OUTPUT OF NEW MAXIMUM
-
-		//next best candidate
-		if (!M.empty()&&(t> back().time)) {
-			push_back(Sample(t, M.front().value, 0));
-		}
-
-
-		//NEXT EVENT DETECTION
-		if (!M.empty()) {
-			if (i != y.end()) {
-				if (i->time - a == M.front().time) {
-					t = M.front().time;
-					new_candidate = true;
-					end_candidate = true;
-				} else if (i->time - a < M.front().time) {
-					t = i->time - a;
-					new_candidate = true;
-					end_candidate = false;
-				} else { //M.back().time < i->time - a
-					t = M.front().time;
-					new_candidate = false;
-					end_candidate = true;
-
-				}
-			} else {
-				t = M.front().time;
-				new_candidate = false;
-				end_candidate = true;
-			}
-		} else {
-			if (i != y.end()) {
-				t = i->time - a;
-				new_candidate = true;
-				end_candidate = false;
-			} else {
-				new_candidate = false;
-				end_candidate = false;
-			}
-		}
-		cont = (end_candidate || new_candidate);
-	}
-
+	Signal y = x;
+	Signal *z = plateauMax(&y, a);
+	*this = *z;
+	delete z;
 }
 
-//copy of plateauMax, operator < switched with operator >, TOP replaces BOTTOM
 void Signal::compute_plateau_min(const Signal &x, double a) {
-	bool new_candidate, end_candidate;
-	double t, v;
-	Signal::const_reverse_iterator j;
-	Sequence M; //sorted in ascending times from front to back
-	Sequence y; //minimum of x(t) and x(t-) at discontinuity points of x
-	Sequence::iterator i;
-
-	clear();
-	beginTime = x.beginTime;
-	endTime = x.endTime;
-
-	//PRECOMPUTATION: list the local minimums of x
-	t = x.endTime;
-	v = TOP;
-	for (j = x.rbegin(); j != x.rend(); j++) {
-		y.push_front(Point(t, fmin(v, j->valueAt(t))));
-		t = j->time;
-		v = j->value;
-	}
-	y.push_front(Point(x.front().time, x.front().value));
-
-	//INIT: read values in [0, a)
-	i = y.begin();
-	while (i->time < x.beginTime + a) {
-		while (!M.empty() && i->value <= M.back().value) {
-			M.pop_back();
-		}
-		M.push_back(*i);
-		i++;
-	}
-	if (i->time == x.beginTime + a)
-		new_candidate = true;
-	else
-		new_candidate = false;
-
-	end_candidate = false;
-	t = x.beginTime;
-
-	// push first element in M
-	push_back(Sample(t, M.front().value, 0));
-
-	//STEP
-	bool cont = true;
-	while (cont) {
-		//UPDATE OF CANDIDATE LIST
-		//candidate crosses t: remove it from list
-		if (end_candidate) {
-			M.pop_front();
-		}
-
-		//sample crosses t+a: add it to candidate list
-		if (new_candidate) {
-			while (!M.empty() && i->value <= M.back().value) {
-				M.pop_back();
-			}
-			//detect if new minimum is found
-			if (!M.empty()) {
-				//if M non empty then t + a does not generate new minimum
-				new_candidate = false;
-			}
-			//add candidate
-			M.push_back(*i);
-
-			//increment iterator
-			i++;
-		}
-
-		//OUTPUT OF NEW MINIMUM
-		//no candidate
-		//			if (M.empty()) {
-		//				push_back(Sample(t, TOP, 0));
-		//			}
-		//next best candidate
-		if (!M.empty()&&(t> back().time)) {
-			push_back(Sample(t, M.front().value, 0));
-		}
-
-		//NEXT EVENT DETECTION
-		if (!M.empty()) {
-			if (i != y.end()) {
-				if (i->time - a == M.front().time) {
-					t = M.front().time;
-					new_candidate = true;
-					end_candidate = true;
-				} else if (i->time - a < M.front().time) {
-					t = i->time - a;
-					new_candidate = true;
-					end_candidate = false;
-				} else { //M.back().time < i->time - a
-					t = M.front().time;
-					new_candidate = false;
-					end_candidate = true;
-
-				}
-			} else {
-				t = M.front().time;
-				new_candidate = false;
-				end_candidate = true;
-			}
-		} else {
-			if (i != y.end()) {
-				t = i->time - a;
-				new_candidate = true;
-				end_candidate = false;
-			} else {
-				new_candidate = false;
-				end_candidate = false;
-			}
-		}
-		cont = (new_candidate || end_candidate);
-	}
-
+	Signal y = x;
+	Signal *z = plateauMin(&y, a);
+	*this = *z;
+	delete z;
 }
 
 
-- 
2.43.0


From 1a61288e065d5a39a9e6e95714c3e1b5faa0a28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 17/34] fix: resize keeps the slope of the segment it cuts when
 that is the signal's last one

---
 src/signal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signal.cpp b/src/signal.cpp
index 7be1ab0..94e5c75 100644
--- a/src/signal.cpp
+++ b/src/signal.cpp
@@ -180,7 +180,7 @@ namespace STLRom {
             }
             if (empty()) {
                 //			cout << "push empty " << first << endl;
-                push_front(Sample(s, first.valueAt(s), 0));
+                push_front(Sample(s, first.valueAt(s), (s < endTime) ? first.derivative : 0.));
                 if (endTime < s)
                     endTime = s;
             }
-- 
2.43.0


From 3b41895e75e8e868b883c6a8e37a4aadd7cb73ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:03 +0000
Subject: [PATCH 18/34] fix: the boolean view is true on a segment that rises
 from exactly zero

---
 src/robustness.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 3bf8047..460fc0f 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -30,7 +30,7 @@ void Signal::compute_boolean(const Signal &y) {
 		else 
 			next_time = next_i->time;
 		
-		if (v>0.) {
+		if ((v>0.)||((v==0.)&&(d>0.))) {
 			push_back(Sample(i->time, 1. , 0.));
 			if (d<0.) {
 				double t_zero_cross = i->time-v/d;
-- 
2.43.0


From 3a3f4b85be9eabf4cccaa214fcc79bd583d94e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:13 +0000
Subject: [PATCH 19/34] fix: parser actions release the texts, maps and
 formulas they consume

---
 src/stl_parser.cpp | 20 ++++++++++----------
 src/stl_parser.ypp | 18 +++++++++---------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/stl_parser.cpp b/src/stl_parser.cpp
index 6d20775..7233b13 100644
--- a/src/stl_parser.cpp
+++ b/src/stl_parser.cpp
@@ -411,7 +411,7 @@ namespace STLRom {
     // User destructor.
     switch (yysym.type_get ())
     {
-            case 31: // "param_id"
+            case 30: case 42: case 51: case 31: // "constant", constant, op, "param_id"
 
 #line 129 "stl_parser.ypp" // lalr1.cc:617
         { delete (yysym.value.stringVal); }
@@ -522,8 +522,8 @@ namespace STLRom {
         { delete (yysym.value.transducer_ptr); }
 #line 524 "stl_parser.cpp" // lalr1.cc:617
         break;
-
-
+      case 60: case 61: case 62: // local_param_assignement, ..._list, ...s
+        { delete (yysym.value.param_map_ptr); } break;
       default:
         break;
     }
@@ -818,7 +818,7 @@ namespace STLRom {
             if (i==0) {
                 cout << "Parsing error: unknown signal " << *(yystack_[3].value.stringVal) << endl;
                 delete (yylhs.value.transducer_ptr);
-                (yylhs.value.transducer_ptr) = nullptr;
+                (yylhs.value.transducer_ptr) = nullptr; delete (yystack_[3].value.stringVal);
                 YYERROR;
             }
             delete (yystack_[3].value.stringVal);
@@ -933,7 +933,7 @@ namespace STLRom {
   case 18:
 #line 268 "stl_parser.ypp" // lalr1.cc:859
     {
-              (yylhs.value.transducer_ptr) = new stl_atom((yystack_[2].value.transducer_ptr), *(yystack_[1].value.stringVal), (yystack_[0].value.transducer_ptr));
+              (yylhs.value.transducer_ptr) = new stl_atom((yystack_[2].value.transducer_ptr), *(yystack_[1].value.stringVal), (yystack_[0].value.transducer_ptr)); delete (yystack_[1].value.stringVal);
               (yylhs.value.transducer_ptr)->trace_data_ptr = &driver.data;
               (yylhs.value.transducer_ptr)->param_map = driver.param_map;
               (yylhs.value.transducer_ptr)->signal_map = driver.signal_map;
@@ -1081,7 +1081,7 @@ namespace STLRom {
 
                  if (ref==nullptr) {
                      cout << "Parsing error: unknown identifier " << *(yystack_[0].value.stringVal) << endl;
-                     (yylhs.value.transducer_ptr) = nullptr;
+                     (yylhs.value.transducer_ptr) = nullptr; delete (yystack_[0].value.stringVal);
                      YYERROR;
                  }
                  else {
@@ -1096,7 +1096,7 @@ namespace STLRom {
   case 33:
 #line 379 "stl_parser.ypp" // lalr1.cc:859
     {
-                driver.formula_map[*(yystack_[2].value.stringVal)] = (yystack_[0].value.transducer_ptr);
+                transducer *& phi = driver.formula_map[*(yystack_[2].value.stringVal)]; delete phi; phi = (yystack_[0].value.transducer_ptr);
                 delete (yystack_[2].value.stringVal);
             }
 #line 1103 "stl_parser.cpp" // lalr1.cc:859
@@ -1107,7 +1107,7 @@ namespace STLRom {
     {
              double x;
              driver.add_trace_test(*(yystack_[2].value.stringVal), *(yystack_[0].value.stringVal), 0., false);
-             delete (yystack_[2].value.stringVal);
+             delete (yystack_[2].value.stringVal); delete (yystack_[0].value.stringVal);
          }
 #line 1113 "stl_parser.cpp" // lalr1.cc:859
     break;
@@ -1198,7 +1198,7 @@ namespace STLRom {
     {
     (yylhs.value.param_map_ptr) = new map<string,double>(*(yystack_[2].value.param_map_ptr));
     auto elem = (yystack_[0].value.param_map_ptr)->begin();
-    (*(yylhs.value.param_map_ptr))[elem->first] = elem->second;
+    (*(yylhs.value.param_map_ptr))[elem->first] = elem->second; delete (yystack_[2].value.param_map_ptr); delete (yystack_[0].value.param_map_ptr);
 }
 #line 1204 "stl_parser.cpp" // lalr1.cc:859
     break;
@@ -1242,7 +1242,7 @@ namespace STLRom {
     {
             driver.add_stl_test(*(yystack_[10].value.stringVal), *(yystack_[9].value.param_map_ptr), (yystack_[7].value.transducer_ptr), *(yystack_[5].value.stringVal), *(yystack_[3].value.stringVal), (yystack_[1].value.boolVal) );
             delete (yystack_[10].value.stringVal);
-            delete (yystack_[9].value.param_map_ptr);
+            delete (yystack_[9].value.param_map_ptr); delete (yystack_[7].value.transducer_ptr);
             delete (yystack_[5].value.stringVal);
             delete (yystack_[3].value.stringVal);
         }
diff --git a/src/stl_parser.ypp b/src/stl_parser.ypp
index 259d78f..7deac1b 100644
--- a/src/stl_parser.ypp
+++ b/src/stl_parser.ypp
@@ -126,8 +126,8 @@ using namespace STLRom;
 %type <boolVal>        boolean
 %type <param_map_ptr>  local_param_assignements local_param_assignement_list local_param_assignement
 
-%destructor { delete $$; } STRING PARAM_ID PHI_ID NEW_ID SIGNAL_ID STL_TEST_ID
-%destructor { delete $$; } interval
+%destructor { delete $$; } STRING CONSTANT constant op PARAM_ID PHI_ID NEW_ID SIGNAL_ID STL_TEST_ID
+%destructor { delete $$; } interval local_param_assignement local_param_assignement_list local_param_assignements
 %destructor { delete $$; } stl_atom stl_formula signal signal_atom
 %destructor { delete $$; } signal_expr constant_signal signal_addexpr signal_multexpr signal_unaryexpr
 
@@ -189,7 +189,7 @@ signal: SIGNAL_ID LINT TIME RINT
             if (i==0) {
                 cout << "Parsing error: unknown signal " << *$1 << endl;
                 delete $$;
-                $$ = nullptr;
+                $$ = nullptr; delete $1;
                 YYERROR;
             }
             delete $1;
@@ -266,7 +266,7 @@ signal_expr : signal_addexpr
 
 stl_atom : signal_expr op signal_expr
           {
-              $$ = new stl_atom($1, *$2, $3);
+              $$ = new stl_atom($1, *$2, $3); delete $2;
               $$->trace_data_ptr = &driver.data;
               $$->param_map = driver.param_map;
               $$->signal_map = driver.signal_map;
@@ -363,7 +363,7 @@ stl_formula :
 
                  if (ref==nullptr) {
                      cout << "Parsing error: unknown identifier " << *$1 << endl;
-                     $$ = nullptr;
+                     $$ = nullptr; delete $1;
                      YYERROR;
                  }
                  else {
@@ -377,7 +377,7 @@ stl_formula :
 
 assignement : NEW_ID ASSIGN stl_formula
             {
-                driver.formula_map[*$1] = $3;
+                transducer *& phi = driver.formula_map[*$1]; delete phi; phi = $3;
                 delete $1;
             }
 
@@ -385,7 +385,7 @@ trace_env: TEST NEW_ID ':' STRING
          {
              double x;
              driver.add_trace_test(*$2, *$4, 0., false);
-             delete $2;
+             delete $2; delete $4;
          }
          | TEST NEW_ID ':' STRING COMMA CONSTANT COMMA boolean  /* test id: environment, simulation time, visualization  */
          {
@@ -459,7 +459,7 @@ local_param_assignement_list: local_param_assignement
 {
     $$ = new map<string,double>(*$1);
     auto elem = $3->begin();
-    (*$$)[elem->first] = elem->second;
+    (*$$)[elem->first] = elem->second; delete $1; delete $3;
 }
 
 local_param_assignements: /* empty */
@@ -493,7 +493,7 @@ stl_test: NEW_ID  local_param_assignements '{'  stl_formula COMMA  STRING COMMA
         {
             driver.add_stl_test(*$1, *$2, $4, *$6, *$8, $10 );
             delete $1;
-            delete $2;
+            delete $2; delete $4;
             delete $6;
             delete $8;
         }
-- 
2.43.0


From 3bf9e2a4e9194b2b8ecd81874eed2067f02d41fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:18 +0000
Subject: [PATCH 20/34] fix: get_next_formula and get_next_stl_test return null
 when no trace test is queued

---
 include/stl_driver.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stl_driver.h b/include/stl_driver.h
index 0164fa8..72657c0 100644
--- a/include/stl_driver.h
+++ b/include/stl_driver.h
@@ -289,7 +289,7 @@ namespace STLRom
         inline transducer *get_next_formula() const
         {
 
-            if (!trace_test_queue.front().tests.empty())
+            if (!trace_test_queue.empty() && !trace_test_queue.front().tests.empty())
                 return trace_test_queue.front().tests.front().formula;
             else
                 return nullptr;
@@ -298,7 +298,7 @@ namespace STLRom
         inline const stl_test *get_next_stl_test() const
         {
 
-            if (!trace_test_queue.front().tests.empty())
+            if (!trace_test_queue.empty() && !trace_test_queue.front().tests.empty())
                 return &(trace_test_queue.front().tests.front());
             else
                 return nullptr;
-- 
2.43.0


From 58d5727c300c38a0965f5a4cb59afafba61a95e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:18 +0000
Subject: [PATCH 21/34] fix: run_tests evaluates each test with its own local
 parameters over the driver's

---
 src/stl_driver.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index 91063ef..2bd107c 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -319,13 +319,12 @@ namespace STLRom
 			while (formula != nullptr)
 			{
 
-				// initialize local parameters FIXME
-				// for (auto elem = curr_test->param_map.begin(); elem != curr_test->param_map.end(); elem++){
-				//	transducer->param_map[elem->first] = elem->second;
-				//}
+				// the test's local parameters take precedence over the driver's
+				map<string, double> test_params(curr_test->param_map);
+				test_params.insert(param_map.begin(), param_map.end());
 
 				formula->set_trace_data_ptr(data);
-				formula->set_param_map_ptr(param_map);
+				formula->set_param_map_ptr(test_params);
 				Signal::semantics = semantics;
 				Signal::interpol = interpol;
 				formula->reset();
-- 
2.43.0


From 73784e17c80cd2fc0c86c91885d953f1f18e3a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:26 +0000
Subject: [PATCH 22/34] fix: binary operators print with parentheses so that
 the printed formula reads back as the same formula

---
 include/signal_expr.h | 12 +++++++++---
 include/transducer.h  | 10 ++++++++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/signal_expr.h b/include/signal_expr.h
index 21c91c8..34b5c8e 100644
--- a/include/signal_expr.h
+++ b/include/signal_expr.h
@@ -205,9 +205,11 @@ namespace STLRom
 
         virtual void print(ostream &os) const
         {
+            os << "(";
             childL->print(os);
-            os << "+";
+            os << " + ";
             childR->print(os);
+            os << ")";
         };
     };
 
@@ -235,9 +237,11 @@ namespace STLRom
 
         virtual void print(ostream &os) const
         {
+            os << "(";
             childL->print(os);
-            os << "-";
+            os << " - ";
             childR->print(os);
+            os << ")";
         };
     };
 
@@ -266,9 +270,11 @@ namespace STLRom
 
         virtual void print(ostream &os) const
         {
+            os << "(";
             childL->print(os);
-            os << "*";
+            os << " * ";
             childR->print(os);
+            os << ")";
         };
     };
 
diff --git a/include/transducer.h b/include/transducer.h
index 4f64f84..53d8c3e 100644
--- a/include/transducer.h
+++ b/include/transducer.h
@@ -305,9 +305,11 @@ namespace STLRom {
         };
 
         virtual void print(ostream &os) const {
+            os << "(";
             childL->print(os);
             os << " and ";
             childR->print(os);
+            os << ")";
         }
         ;
 
@@ -342,9 +344,11 @@ namespace STLRom {
         };
 
         virtual void print(ostream &os) const {
+            os << "(";
             childL->print(os);
             os << " or ";
             childR->print(os);
+            os << ")";
         }
         ;
 
@@ -379,9 +383,11 @@ namespace STLRom {
         };
 
         virtual void print(ostream &os) const {
+            os << "(";
             childL->print(os);
             os << " => ";
             childR->print(os);
+            os << ")";
         }
         ;
 
@@ -485,13 +491,13 @@ namespace STLRom {
         };
 
         virtual void print(ostream &os) const {
-            os << " (";
+            os << "((";
             childL->print(os);
             os << ") until_";
             I->print(os);
             os << " (";
             childR->print(os);
-            os << ") ";
+            os << "))";
         }
         ;
 
-- 
2.43.0


From 805d68362a4a7f9ed34927219bcb8c8e85047de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:26 +0000
Subject: [PATCH 23/34] fix: read_trace reads every line and stops on text that
 is not a number

---
 src/tools.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index c14223e..eb68cb3 100755
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -115,15 +115,20 @@ bool read_trace(const string &trace_file_name, vector< vector<double> > &data)
 	}
 
 	string line;
-	while (!std::getline(file, line, '\n').eof()) {
+	while (std::getline(file, line, '\n')) {
 		istringstream reader(line);
 		vector<double> lineData;
-		while (!reader.eof()) {
+		string word;
+		while (reader >> word) {
 			double val;
-			reader >> val;
+			if (!s_to_d(word, val)) {
+				cout << "trace file " << trace_file_name << ": " << word << " is not a number" << endl;
+				return false;
+			}
 			lineData.push_back(val);
 		}
-		data.push_back(lineData);
+		if (!lineData.empty())
+			data.push_back(lineData);
 	}
 	file.close();
 	return true;
-- 
2.43.0


From ea611c9edf5467734f7ef2b534cdd5447a0015fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:26 +0000
Subject: [PATCH 24/34] fix: signal_map_to_string returns an empty string when
 there are no signals

---
 src/tools.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index eb68cb3..c34b3e0 100755
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -45,7 +45,9 @@ string signal_map_to_string(map<string, int> signal_map)
 	// get number of signals
 		int n_signals = signal_map.size();
 		// cout << "n_signals:" << n_signals << endl;
-		string signames[n_signals];
+		if (n_signals == 0)
+			return string();
+		vector<string> signames(n_signals);
 
 		//     for (auto ii = signal_map->begin(); ii != signal_map->end(); ii++){
 		for (const auto &ii : signal_map)
-- 
2.43.0


From 7133de6dafb7725325d64eac843ac34d35a219f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:26 +0000
Subject: [PATCH 25/34] fix: dump_trace_file writes enough digits to read the
 same values back

---
 src/stl_driver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index 2bd107c..866b498 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -567,6 +567,7 @@ namespace STLRom
 		ofs.open(filename.c_str(), std::ofstream::out);
 		if (ofs.is_open())
 		{
+			ofs.precision(17); // enough to read the same values back
 			for (auto ii = data.begin(); ii != data.end(); ii++)
 			{
 				for (auto jj = (*ii).begin(); jj != (*ii).end(); jj++)
-- 
2.43.0


From 538fd621b7990c5a929f3a1b0a42a72b0f864a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:26 +0000
Subject: [PATCH 26/34] fix: copied and moved drivers start without a lexer

---
 src/stl_driver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index 866b498..bdb6abc 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -65,7 +65,8 @@ namespace STLRom
 		  test_log(other.test_log),
 		  nb_test_pos(other.nb_test_pos),
 		  nb_test_total(other.nb_test_total),
-		  error_flag(other.error_flag)
+		  error_flag(other.error_flag),
+		  lexer(nullptr)
 	{
 
 		for (const auto &pair : other.formula_map)
@@ -112,7 +113,7 @@ namespace STLRom
 		: semantics(other.semantics), interpol(other.interpol), trace_scanning(other.trace_scanning), trace_parsing(other.trace_parsing), streamname(std::move(other.streamname)), param_map(std::move(other.param_map)),
 		  signal_map(std::move(other.signal_map)), formula_map(std::move(other.formula_map)), data(std::move(other.data)), stl_test_map(std::move(other.stl_test_map)),
 		  trace_test_queue(std::move(other.trace_test_queue)), report(std::move(other.report)), test_log(std::move(other.test_log)), nb_test_pos(other.nb_test_pos),
-		  nb_test_total(other.nb_test_total), error_flag(other.error_flag)
+		  nb_test_total(other.nb_test_total), error_flag(other.error_flag), lexer(nullptr)
 	{
 		other.formula_map.clear();
 	}
-- 
2.43.0


From f88ddf717f31326057da35c03a02ae7596ccc4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:26 +0000
Subject: [PATCH 27/34] fix: get_signal refuses a monitor without formula

---
 include/stl_monitor.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stl_monitor.h b/include/stl_monitor.h
index 9cd3de0..5318902 100644
--- a/include/stl_monitor.h
+++ b/include/stl_monitor.h
@@ -247,6 +247,10 @@ namespace STLRom
 
         inline Signal get_signal() const
         {
+            if (!formula)
+            {
+                throw std::invalid_argument("No formula set.");
+            }
             return formula->get_signal();
         }
 
-- 
2.43.0


From bc2a22fec5a7925685786141f1808d95c29f2249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:26 +0000
Subject: [PATCH 28/34] fix: print_monitor stops when the formula phi is
 undefined

---
 src/pybind11/main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pybind11/main.cpp b/src/pybind11/main.cpp
index e369234..77e23e5 100644
--- a/src/pybind11/main.cpp
+++ b/src/pybind11/main.cpp
@@ -48,6 +48,8 @@ void print_monitor(STLDriver& d) {
 	*/
 	STLMonitor m = d.get_monitor("phi");
 	transducer* phi = m.formula;
+	if (!phi)
+		return;
 	os << "Monitor lower rob:" << m.lower_rob <<endl;
 	phi->print(os);
 	py::print(os.str());
-- 
2.43.0


From e5c53b6faf2b28bf5bcf8fccfd0dc092918b729e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:26 +0000
Subject: [PATCH 29/34] fix: __del__ leaves the release of monitors and drivers
 to Python

---
 src/pybind11/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybind11/main.cpp b/src/pybind11/main.cpp
index 77e23e5..2e4a729 100644
--- a/src/pybind11/main.cpp
+++ b/src/pybind11/main.cpp
@@ -139,7 +139,7 @@ PYBIND11_MODULE(stlrom, m) {
 		.def("copy", [](const STLRom::STLMonitor &self) { return STLRom::STLMonitor(self); })
 		.def("__copy__", [](const STLRom::STLMonitor &self) { return STLRom::STLMonitor(self); })
 		.def("__deepcopy__", [](const STLRom::STLMonitor &self, py::dict) { return STLRom::STLMonitor(self); })
-		.def("__del__", [](STLRom::STLMonitor *instance) { delete instance; }) // Bind the destructor
+		.def("__del__", [](STLRom::STLMonitor &self) {})
 
 		.def_readwrite("rob",&STLRom::STLMonitor::rob)
 		.def_readwrite("lower_rob",&STLRom::STLMonitor::lower_rob)
@@ -176,5 +176,5 @@ PYBIND11_MODULE(stlrom, m) {
 		.def("copy", [](const STLRom::STLDriver &self) { return STLRom::STLDriver(self); })
 		.def("__copy__", [](const STLRom::STLDriver &self) { return STLRom::STLDriver(self); })
 		.def("__deepcopy__", [](const STLRom::STLDriver &self, py::dict) { return STLRom::STLDriver(self); })
-		.def("__del__", [](STLRom::STLDriver *instance) {delete instance; }); // Bind the destructor
+		.def("__del__", [](STLRom::STLDriver &self) {});
 }
-- 
2.43.0


From 357a229e6c34af22aab57390799fab7cd5388bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:26 +0000
Subject: [PATCH 30/34] fix: get_BigM returns the value set by set_BigM

---
 include/signal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/signal.h b/include/signal.h
index bd2639d..114a834 100644
--- a/include/signal.h
+++ b/include/signal.h
@@ -136,7 +136,7 @@ public:
 		BigM=val;
 	}
 
-	inline static int get_BigM(){
+	inline static double get_BigM(){
 		return BigM;
 	}
 
-- 
2.43.0


From dd6d4aaa637f39fc337e5794a5434d4c1e35b270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:53 +0000
Subject: [PATCH 31/34] fix: negations and absolute values print with
 parentheses so that the printed formula reads back as the same formula

---
 include/signal_expr.h | 4 ++--
 include/transducer.h  | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/signal_expr.h b/include/signal_expr.h
index 34b5c8e..e5037ab 100644
--- a/include/signal_expr.h
+++ b/include/signal_expr.h
@@ -171,9 +171,9 @@ namespace STLRom
 
         virtual void print(ostream &os) const
         {
-            os << "abs( ";
+            os << "(abs( ";
             child->print(os);
-            os << " )";
+            os << " ))";
         };
     };
 
diff --git a/include/transducer.h b/include/transducer.h
index 53d8c3e..b21fd5a 100644
--- a/include/transducer.h
+++ b/include/transducer.h
@@ -269,8 +269,9 @@ namespace STLRom {
         };
 
         void print(ostream &os) const {
-            os << "not ";
+            os << "(not ";
             child->print(os);
+            os << ")";
         }
         ;
 
-- 
2.43.0


From 21ec7d0cb37196dffb0865389f79b40ba831ada5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:08 +0000
Subject: [PATCH 32/34] fix: signal and constant nodes start with their read
 position set, cloning them copied an undefined value

---
 include/signal_expr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/signal_expr.h b/include/signal_expr.h
index e5037ab..f1069c7 100644
--- a/include/signal_expr.h
+++ b/include/signal_expr.h
@@ -22,7 +22,7 @@ namespace STLRom
 
     public:
         string variable;
-        long int td_idx;
+        long int td_idx = 0;
 
         signal_transducer() : variable("x"){};
 
@@ -78,7 +78,7 @@ namespace STLRom
     public:
         string param;
         double value;
-        long int td_idx;
+        long int td_idx = 0;
 
         constant_transducer()
         {
-- 
2.43.0


From 7a8b3d2c5876b050902030db78642e3030a05890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:09 +0000
Subject: [PATCH 33/34] fix: restore the CRLF line endings of stl_driver.cpp,
 which earlier repairs changed

---
 src/stl_driver.cpp | 1214 ++++++++++++++++++++++----------------------
 1 file changed, 607 insertions(+), 607 deletions(-)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index bdb6abc..c8ec1bb 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -1,607 +1,607 @@
-// $Id: stl_driver.cpp 378 2014-04-27 17:47:40Z donze $
-/** \file driver.cc Implementation of the example::Driver class. */
-
-#include "stdafx.h"
-#include <fstream>
-#include <sstream>
-
-#include "stl_driver.h"
-#include "transducer.h"
-#include "stl_scanner.h"
-#include <memory>
-
-namespace STLRom
-{
-
-	map<string, token_type> STLDriver::reserved = map<string, token_type>(); // filled in stl_scanner.lpp
-
-	STLDriver::STLDriver()
-		: interpol(Interpol::LINEAR),
-		  semantics(Semantics::SPACE),
-		  trace_scanning(false),
-		  trace_parsing(false),
-		  report(""),
-		  lexer(nullptr),
-		  nb_test_total(0),
-		  nb_test_pos(0),
-		  error_flag(false)
-	{
-	}
-
-	STLDriver::STLDriver(trace_data _trace)
-		: interpol(Interpol::LINEAR),
-		  semantics(Semantics::SPACE),
-		  data(std::move(_trace)),
-		  trace_scanning(false),
-		  trace_parsing(false),
-		  report(""),
-		  lexer(nullptr),
-		  nb_test_total(0),
-		  nb_test_pos(0),
-		  error_flag(false)
-	{
-	}
-
-	STLDriver::~STLDriver()
-	{
-		for (auto &pair : formula_map)
-		{
-			delete pair.second;
-		}
-	}
-
-	STLDriver::STLDriver(const STLDriver &other)
-		: semantics(other.semantics),
-		  interpol(other.interpol),
-		  trace_scanning(other.trace_scanning),
-		  trace_parsing(other.trace_parsing),
-		  streamname(other.streamname),
-		  param_map(other.param_map),
-		  signal_map(other.signal_map),
-		  data(other.data),
-		  stl_test_map(other.stl_test_map),
-		  trace_test_queue(other.trace_test_queue),
-		  report(other.report),
-		  test_log(other.test_log),
-		  nb_test_pos(other.nb_test_pos),
-		  nb_test_total(other.nb_test_total),
-		  error_flag(other.error_flag),
-		  lexer(nullptr)
-	{
-
-		for (const auto &pair : other.formula_map)
-		{
-			formula_map[pair.first] = pair.second->clone();
-		}
-	}
-
-	STLDriver &STLDriver::operator=(const STLDriver &other)
-	{
-		if (this != &other)
-		{
-			semantics = other.semantics;
-			interpol = other.interpol;
-			trace_scanning = other.trace_scanning;
-			trace_parsing = other.trace_parsing;
-			streamname = other.streamname;
-			param_map = other.param_map;
-			signal_map = other.signal_map;
-			data = other.data;
-			stl_test_map = other.stl_test_map;
-			trace_test_queue = other.trace_test_queue;
-			report = other.report;
-			test_log = other.test_log;
-			nb_test_pos = other.nb_test_pos;
-			nb_test_total = other.nb_test_total;
-			error_flag = other.error_flag;
-
-			for (auto &pair : formula_map)
-			{
-				delete pair.second;
-			}
-			formula_map.clear();
-
-			for (const auto &pair : other.formula_map)
-			{
-				formula_map[pair.first] = pair.second->clone();
-			}
-		}
-		return *this;
-	}
-
-	STLDriver::STLDriver(STLDriver &&other) noexcept
-		: semantics(other.semantics), interpol(other.interpol), trace_scanning(other.trace_scanning), trace_parsing(other.trace_parsing), streamname(std::move(other.streamname)), param_map(std::move(other.param_map)),
-		  signal_map(std::move(other.signal_map)), formula_map(std::move(other.formula_map)), data(std::move(other.data)), stl_test_map(std::move(other.stl_test_map)),
-		  trace_test_queue(std::move(other.trace_test_queue)), report(std::move(other.report)), test_log(std::move(other.test_log)), nb_test_pos(other.nb_test_pos),
-		  nb_test_total(other.nb_test_total), error_flag(other.error_flag), lexer(nullptr)
-	{
-		other.formula_map.clear();
-	}
-
-	STLDriver &STLDriver::operator=(STLDriver &&other) noexcept
-	{
-		if (this != &other)
-		{
-			semantics = other.semantics;
-			interpol = other.interpol;
-			trace_scanning = other.trace_scanning;
-			trace_parsing = other.trace_parsing;
-			streamname = std::move(other.streamname);
-			param_map = std::move(other.param_map);
-			signal_map = std::move(other.signal_map);
-			data = std::move(other.data);
-			stl_test_map = std::move(other.stl_test_map);
-			trace_test_queue = std::move(other.trace_test_queue);
-			report = std::move(other.report);
-			test_log = std::move(other.test_log);
-			nb_test_pos = other.nb_test_pos;
-			nb_test_total = other.nb_test_total;
-			error_flag = other.error_flag;
-
-			for (auto &pair : formula_map)
-			{
-				delete pair.second;
-			}
-			formula_map = std::move(other.formula_map);
-			other.formula_map.clear();
-		}
-		return *this;
-	}
-
-	bool STLDriver::parse_stream(std::istream &in)
-	{
-		Scanner scanner(&in);
-		scanner.set_debug(trace_scanning);
-		this->lexer = &scanner;
-
-		Parser parser(*this);
-		parser.set_debug_level(trace_parsing);
-
-		return (parser.parse() == 0);
-	}
-
-	bool STLDriver::parse_file(const std::string &filename)
-	{
-		std::ifstream in(filename.c_str());
-		if (!in.good())
-			return false;
-		return parse_stream(in);
-	}
-
-	bool STLDriver::parse_string(const std::string &input)
-	{
-		std::istringstream iss(input);
-		return parse_stream(iss);
-	}
-
-	/** Error handling with associated line number. This can be modified to
-	 * output the error e.g. to a dialog box. */
-	void STLDriver::error(const class location &l,
-						  const std::string &m)
-	{
-		std::cerr << l << ": " << m << std::endl;
-	}
-
-	/** General error handling. This can be modified to output the error
-	 * e.g. to a dialog box. */
-	void STLDriver::error(const std::string &m)
-	{
-		std::cerr << m << std::endl;
-	}
-
-	string STLDriver::get_signals_names() const
-	{
-		return signal_map_to_string(signal_map);
-	}
-
-	/** clear assigned formulas and trace_test_queue */
-	void STLDriver::clear()
-	{
-
-		for (auto formula = formula_map.begin(); formula != formula_map.end(); formula++)
-		{
-			if (formula->second != 0)
-			{
-				delete formula->second;
-				formula->second = 0;
-			}
-		}
-
-		for (auto stest = stl_test_map.begin(); stest != stl_test_map.end(); stest++)
-		{
-			if (stest->second.formula != 0)
-			{
-				delete stest->second.formula;
-				stest->second.formula = 0;
-			}
-		}
-
-		formula_map.clear();
-		param_map.clear();
-		stl_test_map.clear();
-
-		// the queued tests own (and delete) their formulas
-		trace_test_queue.clear();
-		report.clear();
-		test_log.clear();
-		error_flag = false;
-
-		nb_test_total = 0;
-		nb_test_pos = 0;
-	}
-
-	void STLDriver::print(ostream &out) const
-	{
-
-		out << "\nAssigned formulas:" << endl;
-		out << "-------------------" << endl;
-
-		for (auto formula = formula_map.begin(); formula != formula_map.end(); formula++)
-		{
-			out << formula->first << ":" << endl;
-			out << *(formula->second) << endl;
-		}
-
-		out << "\nDefault Parameters:" << endl;
-		out << "---------------------" << endl;
-
-		for (auto param = param_map.begin(); param != param_map.end(); param++)
-		{
-			out << param->first << "=";
-			out << param->second << endl;
-		}
-
-		// Not using tests at the moments, will see if we keep/update them...
-		// out << "\nTrace tests:" << endl;
-		// out << "---------------" << endl;
-
-		// string indent = "    ";
-		// for (auto it = trace_test_queue.begin(); it != trace_test_queue.end(); it++)
-		// {
-
-		// 	out << (*it).id << ": ";
-		// 	out << (*it).env << ", ";
-		// 	out << "SimTime: " << (*it).sim_time << " Visu:" << (*it).visu << endl;
-		// 	for (auto its = (*it).tests.begin(); its != (*it).tests.end(); its++)
-		// 	{
-		// 		// transducer->param_map =  param_map; FIXME probably needs a set_param for transducers
-		// 		out << indent << its->test_id << endl;
-		// 		for (auto elem = its->param_map.begin(); elem != its->param_map.end(); elem++)
-		// 			out << indent << indent << elem->first << "=" << elem->second << endl;
-
-		// 		out << indent << indent << *(*its).formula << endl;
-		// 	}
-		// 	out << endl;
-		// }
-		out << endl;
-	}
-
-	/** compute robustness for all formulas defined in the driver and write results in files */
-	void STLDriver::dump()
-	{
-
-		if (data.empty())
-		{
-			cout << "Empty data" << endl;
-			return;
-		}
-
-		for (auto formula = formula_map.begin(); formula != formula_map.end(); formula++)
-		{
-			transducer *phi = formula->second;
-			phi->set_trace_data_ptr(data);
-			phi->set_param_map_ptr(param_map);
-			Signal::semantics = semantics;
-			Signal::interpol = interpol;
-			phi->reset();
-			phi->set_horizon(phi->start_time, phi->end_time);
-			phi->compute_robustness();
-			(formula->second->z).dumpFile(formula->first + ".out");
-		}
-	}
-
-	/** run all stl tests for the next trace_test and write results in report */
-	bool STLDriver::run_tests()
-	{
-
-		error_flag = false;
-		string indent("    ");
-		if (!trace_test_queue.empty())
-		{
-
-			const stl_test *curr_test = get_next_stl_test();
-			transducer *formula = get_next_formula();
-
-			report.append("stl_test " + trace_test_queue.front().id + "\n");
-
-			// Initialize global parameters
-			// transducer->param_map =  param_map; FIXME
-
-			while (formula != nullptr)
-			{
-
-				// the test's local parameters take precedence over the driver's
-				map<string, double> test_params(curr_test->param_map);
-				test_params.insert(param_map.begin(), param_map.end());
-
-				formula->set_trace_data_ptr(data);
-				formula->set_param_map_ptr(test_params);
-				Signal::semantics = semantics;
-				Signal::interpol = interpol;
-				formula->reset();
-				formula->set_horizon(formula->start_time, formula->end_time);
-				double rob = formula->compute_robustness();
-
-				test_log.append(curr_test->test_id + ": " + d_to_s(rob) + "\n");
-				report.append(indent + curr_test->test_id + ": " + d_to_s(rob));
-
-				if (rob > 0.)
-				{
-					nb_test_pos++;
-					report += "  --> PB\n";
-					if (!curr_test->report_positive.empty())
-						report += indent + curr_test->report_positive + "\n";
-					if (curr_test->is_error)
-						error_flag = true;
-				}
-				else
-				{
-					report += "  --> OK\n";
-					if (!curr_test->report_negative.empty())
-						report += indent + curr_test->report_negative + "\n";
-				}
-
-				// delete formula;
-				trace_test_queue.front().tests.pop_front();
-				formula = get_next_formula();
-				curr_test = get_next_stl_test();
-			}
-			trace_test_queue.pop_front();
-		}
-		report += "\n";
-		return error_flag;
-	}
-
-	void STLDriver::add_trace_test(const string &test_id, const string &trace_cfg, double sim_time, bool visu)
-	{
-		trace_test T;
-		T.id = test_id;
-		T.env = trace_cfg;
-		T.sim_time = sim_time;
-		T.visu = visu;
-		trace_test_queue.push_back(T);
-	}
-
-	double STLDriver::get_param(const string &param)
-	{
-		if (param_map.find(param) != param_map.end())
-		{
-			return param_map[param];
-		}
-		return 0;
-	}
-
-	void STLDriver::set_param(const string &param, double n)
-	{
-		// Update param map
-		if (param_map.find(param) != param_map.end())
-		{
-			param_map[param] = n;
-		}
-		// Update param map for all formulas
-		for (auto it = formula_map.begin(); it != formula_map.end(); it++)
-		{
-			((*it).second)->set_param(param, n);
-		}
-	}
-
-	/** Note: test inserted in the stl_test_map have no local parameters */
-	void STLDriver::add_stl_test(const string &test_id)
-	{
-
-		nb_test_total++;
-		if (!trace_test_queue.empty())
-		{
-			map<string, stl_test>::iterator elem;
-			if ((elem = stl_test_map.find(test_id)) != stl_test_map.end())
-			{
-				trace_test_queue.back().tests.push_back(elem->second);
-				trace_test_queue.back().tests.back().param_map.clear();
-			}
-		}
-	}
-
-	void STLDriver::add_stl_test(const string &test_id, const map<string, double> &local_param_map)
-	{
-
-		nb_test_total++;
-		if (!trace_test_queue.empty())
-		{
-			map<string, stl_test>::iterator elem;
-			if ((elem = stl_test_map.find(test_id)) != stl_test_map.end())
-			{
-
-				//			cout << "Test " << elem->first;
-				//			if (!local_param_map.empty()) {
-				//				cout << " with local param:" << endl;
-				//				for (auto elemp = local_param_map.begin(); elemp != local_param_map.end(); elemp++)
-				//					cout << elemp->first << "=" <<  elemp->second << endl;
-				//			}
-				//			else
-				//				cout << endl;
-
-				trace_test_queue.back().tests.push_back(elem->second);
-				trace_test_queue.back().tests.back().param_map = local_param_map;
-			}
-		}
-	}
-
-	void STLDriver::add_stl_test(const string &test_id, const map<string, double> &local_param_map, transducer *formula, const string &report_pos,
-								 const string &report_neg, bool is_err)
-	{
-
-		nb_test_total++;
-		if (!trace_test_queue.empty())
-		{
-			//		cout << "Inserting test " << test_id;
-			//		if (!local_param_map.empty()) {
-			//			cout << " with local param:" << endl;
-			//			for (auto elemp = local_param_map.begin(); elemp != local_param_map.end(); elemp++)
-			//				cout << elemp->first << "=" <<  elemp->second << endl;
-			//		}
-			//		else
-			//			cout << endl;
-
-			stl_test_map[test_id] = stl_test(test_id, local_param_map, formula->clone(), report_pos, report_neg, is_err);
-			stl_test_map[test_id].param_map = local_param_map;
-			trace_test_queue.back().tests.push_back(stl_test_map[test_id]);
-		}
-	}
-
-	void STLDriver::add_sample(vector<double> s)
-	{
-		if (s.size() != signal_map.size() + 1)
-		{
-			throw std::invalid_argument("Sample size does not match the number of signals.");
-		}
-		if (!data.empty() && s[0] <= data.back()[0])
-		{
-			throw std::invalid_argument("Sample time must be strictly greater than the last sample time.");
-		}
-		data.push_back(s);
-	}
-
-	STLMonitor STLDriver::get_monitor(const string &id) const
-	{
-		STLMonitor phi;
-		auto it = formula_map.find(id); // FYI was map<string,transducer*>::const_iterator it;
-
-		if (it != formula_map.end() && it->second != nullptr)
-		{
-			if (it->second != nullptr)
-			{
-				try
-				{
-					phi.interpol = interpol;
-					phi.semantics = semantics;
-					phi.data = data;
-					phi.formula = (it->second)->clone();
-					phi.signal_map = signal_map;
-					phi.param_map = param_map;
-					phi.start_time = 0.;
-					phi.end_time = 0.;
-					phi.rob = 0.;
-					phi.lower_rob = -Signal::BigM;
-					phi.upper_rob = Signal::BigM;
-				}
-				catch (const std::exception &e)
-				{
-					std::cerr << "Error while cloning or setting up the formula: " << e.what() << std::endl;
-					// Handle the error appropriately, possibly by returning an empty or default-initialized STLMonitor
-					return STLMonitor();
-				}
-			}
-		}
-		else
-		{
-			cout << "WARNING: Formula " << id << " undefined." << endl;
-		}
-
-		return phi;
-	}
-
-	vector<double> STLDriver::get_online_rob(const string &phi_in, double t0 = 0.)
-	{
-		// static vector<double> out_rob;
-		vector<double> out_rob;
-		if (data.empty())
-		{
-			cout << "Empty data" << endl;
-			return out_rob;
-		}
-
-		if (formula_map.find(phi_in) == formula_map.end())
-		{
-			cout << "Formula " << phi_in << " not found in formula_map." << endl;
-			return out_rob;
-		}
-		transducer *phi = formula_map[phi_in];
-		phi->set_trace_data_ptr(data);
-		phi->set_param_map_ptr(param_map);
-		Signal::semantics = semantics;
-		Signal::interpol = interpol;
-		phi->reset();
-		phi->set_horizon(t0, t0);
-		double rob = phi->compute_robustness();
-		double lower_rob = phi->compute_lower_rob();
-		double upper_rob = phi->compute_upper_rob();
-		out_rob = {rob, lower_rob, upper_rob};
-
-		return out_rob;
-	}
-
-	vector<double> STLDriver::get_online_rob(const string &phi_in)
-	{
-		return get_online_rob(phi_in, 0.);
-	}
-
-	void STLDriver::print_trace(ostream &os)
-	{
-		for (auto ii = data.begin(); ii != data.end(); ii++)
-		{
-			for (auto jj = (*ii).begin(); jj != (*ii).end(); jj++)
-			{
-				os << *jj << " ";
-			}
-			os << endl;
-		}
-	}
-
-	void STLDriver::print_trace()
-	{
-		print_trace(cout);
-	}
-
-	void STLDriver::dump_trace_file(const string &filename)
-	{
-		fstream ofs;
-		ofs.open(filename.c_str(), std::ofstream::out);
-		if (ofs.is_open())
-		{
-			ofs.precision(17); // enough to read the same values back
-			for (auto ii = data.begin(); ii != data.end(); ii++)
-			{
-				for (auto jj = (*ii).begin(); jj != (*ii).end(); jj++)
-				{
-					ofs << *jj << " ";
-				}
-				ofs << endl;
-			}
-			ofs.close();
-		}
-		else
-		{
-			cout << "Couldn't open file " << filename.c_str() << " for writing signal" << endl; // TODO implement exception
-		}
-	}
-
-	bool STLDriver::dump_test_log_file(const string &filename)
-	{
-
-		fstream ofs;
-		ofs.open(filename.c_str(), std::ofstream::out);
-		if (ofs.is_open())
-		{
-			ofs << test_log << endl;
-			ofs << "Number of positive STL tests: " << nb_test_pos << "/" << nb_test_total;
-			ofs.close();
-			return true;
-		}
-		else
-		{
-			cout << "Couldn't open file " << filename.c_str() << " for writing signal" << endl; // TODO implement exception
-			return false;
-		}
-	}
-
-} // namespace STLRom
+// $Id: stl_driver.cpp 378 2014-04-27 17:47:40Z donze $
+/** \file driver.cc Implementation of the example::Driver class. */
+
+#include "stdafx.h"
+#include <fstream>
+#include <sstream>
+
+#include "stl_driver.h"
+#include "transducer.h"
+#include "stl_scanner.h"
+#include <memory>
+
+namespace STLRom
+{
+
+	map<string, token_type> STLDriver::reserved = map<string, token_type>(); // filled in stl_scanner.lpp
+
+	STLDriver::STLDriver()
+		: interpol(Interpol::LINEAR),
+		  semantics(Semantics::SPACE),
+		  trace_scanning(false),
+		  trace_parsing(false),
+		  report(""),
+		  lexer(nullptr),
+		  nb_test_total(0),
+		  nb_test_pos(0),
+		  error_flag(false)
+	{
+	}
+
+	STLDriver::STLDriver(trace_data _trace)
+		: interpol(Interpol::LINEAR),
+		  semantics(Semantics::SPACE),
+		  data(std::move(_trace)),
+		  trace_scanning(false),
+		  trace_parsing(false),
+		  report(""),
+		  lexer(nullptr),
+		  nb_test_total(0),
+		  nb_test_pos(0),
+		  error_flag(false)
+	{
+	}
+
+	STLDriver::~STLDriver()
+	{
+		for (auto &pair : formula_map)
+		{
+			delete pair.second;
+		}
+	}
+
+	STLDriver::STLDriver(const STLDriver &other)
+		: semantics(other.semantics),
+		  interpol(other.interpol),
+		  trace_scanning(other.trace_scanning),
+		  trace_parsing(other.trace_parsing),
+		  streamname(other.streamname),
+		  param_map(other.param_map),
+		  signal_map(other.signal_map),
+		  data(other.data),
+		  stl_test_map(other.stl_test_map),
+		  trace_test_queue(other.trace_test_queue),
+		  report(other.report),
+		  test_log(other.test_log),
+		  nb_test_pos(other.nb_test_pos),
+		  nb_test_total(other.nb_test_total),
+		  error_flag(other.error_flag),
+		  lexer(nullptr)
+	{
+
+		for (const auto &pair : other.formula_map)
+		{
+			formula_map[pair.first] = pair.second->clone();
+		}
+	}
+
+	STLDriver &STLDriver::operator=(const STLDriver &other)
+	{
+		if (this != &other)
+		{
+			semantics = other.semantics;
+			interpol = other.interpol;
+			trace_scanning = other.trace_scanning;
+			trace_parsing = other.trace_parsing;
+			streamname = other.streamname;
+			param_map = other.param_map;
+			signal_map = other.signal_map;
+			data = other.data;
+			stl_test_map = other.stl_test_map;
+			trace_test_queue = other.trace_test_queue;
+			report = other.report;
+			test_log = other.test_log;
+			nb_test_pos = other.nb_test_pos;
+			nb_test_total = other.nb_test_total;
+			error_flag = other.error_flag;
+
+			for (auto &pair : formula_map)
+			{
+				delete pair.second;
+			}
+			formula_map.clear();
+
+			for (const auto &pair : other.formula_map)
+			{
+				formula_map[pair.first] = pair.second->clone();
+			}
+		}
+		return *this;
+	}
+
+	STLDriver::STLDriver(STLDriver &&other) noexcept
+		: semantics(other.semantics), interpol(other.interpol), trace_scanning(other.trace_scanning), trace_parsing(other.trace_parsing), streamname(std::move(other.streamname)), param_map(std::move(other.param_map)),
+		  signal_map(std::move(other.signal_map)), formula_map(std::move(other.formula_map)), data(std::move(other.data)), stl_test_map(std::move(other.stl_test_map)),
+		  trace_test_queue(std::move(other.trace_test_queue)), report(std::move(other.report)), test_log(std::move(other.test_log)), nb_test_pos(other.nb_test_pos),
+		  nb_test_total(other.nb_test_total), error_flag(other.error_flag), lexer(nullptr)
+	{
+		other.formula_map.clear();
+	}
+
+	STLDriver &STLDriver::operator=(STLDriver &&other) noexcept
+	{
+		if (this != &other)
+		{
+			semantics = other.semantics;
+			interpol = other.interpol;
+			trace_scanning = other.trace_scanning;
+			trace_parsing = other.trace_parsing;
+			streamname = std::move(other.streamname);
+			param_map = std::move(other.param_map);
+			signal_map = std::move(other.signal_map);
+			data = std::move(other.data);
+			stl_test_map = std::move(other.stl_test_map);
+			trace_test_queue = std::move(other.trace_test_queue);
+			report = std::move(other.report);
+			test_log = std::move(other.test_log);
+			nb_test_pos = other.nb_test_pos;
+			nb_test_total = other.nb_test_total;
+			error_flag = other.error_flag;
+
+			for (auto &pair : formula_map)
+			{
+				delete pair.second;
+			}
+			formula_map = std::move(other.formula_map);
+			other.formula_map.clear();
+		}
+		return *this;
+	}
+
+	bool STLDriver::parse_stream(std::istream &in)
+	{
+		Scanner scanner(&in);
+		scanner.set_debug(trace_scanning);
+		this->lexer = &scanner;
+
+		Parser parser(*this);
+		parser.set_debug_level(trace_parsing);
+
+		return (parser.parse() == 0);
+	}
+
+	bool STLDriver::parse_file(const std::string &filename)
+	{
+		std::ifstream in(filename.c_str());
+		if (!in.good())
+			return false;
+		return parse_stream(in);
+	}
+
+	bool STLDriver::parse_string(const std::string &input)
+	{
+		std::istringstream iss(input);
+		return parse_stream(iss);
+	}
+
+	/** Error handling with associated line number. This can be modified to
+	 * output the error e.g. to a dialog box. */
+	void STLDriver::error(const class location &l,
+						  const std::string &m)
+	{
+		std::cerr << l << ": " << m << std::endl;
+	}
+
+	/** General error handling. This can be modified to output the error
+	 * e.g. to a dialog box. */
+	void STLDriver::error(const std::string &m)
+	{
+		std::cerr << m << std::endl;
+	}
+
+	string STLDriver::get_signals_names() const
+	{
+		return signal_map_to_string(signal_map);
+	}
+
+	/** clear assigned formulas and trace_test_queue */
+	void STLDriver::clear()
+	{
+
+		for (auto formula = formula_map.begin(); formula != formula_map.end(); formula++)
+		{
+			if (formula->second != 0)
+			{
+				delete formula->second;
+				formula->second = 0;
+			}
+		}
+
+		for (auto stest = stl_test_map.begin(); stest != stl_test_map.end(); stest++)
+		{
+			if (stest->second.formula != 0)
+			{
+				delete stest->second.formula;
+				stest->second.formula = 0;
+			}
+		}
+
+		formula_map.clear();
+		param_map.clear();
+		stl_test_map.clear();
+
+		// the queued tests own (and delete) their formulas
+		trace_test_queue.clear();
+		report.clear();
+		test_log.clear();
+		error_flag = false;
+
+		nb_test_total = 0;
+		nb_test_pos = 0;
+	}
+
+	void STLDriver::print(ostream &out) const
+	{
+
+		out << "\nAssigned formulas:" << endl;
+		out << "-------------------" << endl;
+
+		for (auto formula = formula_map.begin(); formula != formula_map.end(); formula++)
+		{
+			out << formula->first << ":" << endl;
+			out << *(formula->second) << endl;
+		}
+
+		out << "\nDefault Parameters:" << endl;
+		out << "---------------------" << endl;
+
+		for (auto param = param_map.begin(); param != param_map.end(); param++)
+		{
+			out << param->first << "=";
+			out << param->second << endl;
+		}
+
+		// Not using tests at the moments, will see if we keep/update them...
+		// out << "\nTrace tests:" << endl;
+		// out << "---------------" << endl;
+
+		// string indent = "    ";
+		// for (auto it = trace_test_queue.begin(); it != trace_test_queue.end(); it++)
+		// {
+
+		// 	out << (*it).id << ": ";
+		// 	out << (*it).env << ", ";
+		// 	out << "SimTime: " << (*it).sim_time << " Visu:" << (*it).visu << endl;
+		// 	for (auto its = (*it).tests.begin(); its != (*it).tests.end(); its++)
+		// 	{
+		// 		// transducer->param_map =  param_map; FIXME probably needs a set_param for transducers
+		// 		out << indent << its->test_id << endl;
+		// 		for (auto elem = its->param_map.begin(); elem != its->param_map.end(); elem++)
+		// 			out << indent << indent << elem->first << "=" << elem->second << endl;
+
+		// 		out << indent << indent << *(*its).formula << endl;
+		// 	}
+		// 	out << endl;
+		// }
+		out << endl;
+	}
+
+	/** compute robustness for all formulas defined in the driver and write results in files */
+	void STLDriver::dump()
+	{
+
+		if (data.empty())
+		{
+			cout << "Empty data" << endl;
+			return;
+		}
+
+		for (auto formula = formula_map.begin(); formula != formula_map.end(); formula++)
+		{
+			transducer *phi = formula->second;
+			phi->set_trace_data_ptr(data);
+			phi->set_param_map_ptr(param_map);
+			Signal::semantics = semantics;
+			Signal::interpol = interpol;
+			phi->reset();
+			phi->set_horizon(phi->start_time, phi->end_time);
+			phi->compute_robustness();
+			(formula->second->z).dumpFile(formula->first + ".out");
+		}
+	}
+
+	/** run all stl tests for the next trace_test and write results in report */
+	bool STLDriver::run_tests()
+	{
+
+		error_flag = false;
+		string indent("    ");
+		if (!trace_test_queue.empty())
+		{
+
+			const stl_test *curr_test = get_next_stl_test();
+			transducer *formula = get_next_formula();
+
+			report.append("stl_test " + trace_test_queue.front().id + "\n");
+
+			// Initialize global parameters
+			// transducer->param_map =  param_map; FIXME
+
+			while (formula != nullptr)
+			{
+
+				// the test's local parameters take precedence over the driver's
+				map<string, double> test_params(curr_test->param_map);
+				test_params.insert(param_map.begin(), param_map.end());
+
+				formula->set_trace_data_ptr(data);
+				formula->set_param_map_ptr(test_params);
+				Signal::semantics = semantics;
+				Signal::interpol = interpol;
+				formula->reset();
+				formula->set_horizon(formula->start_time, formula->end_time);
+				double rob = formula->compute_robustness();
+
+				test_log.append(curr_test->test_id + ": " + d_to_s(rob) + "\n");
+				report.append(indent + curr_test->test_id + ": " + d_to_s(rob));
+
+				if (rob > 0.)
+				{
+					nb_test_pos++;
+					report += "  --> PB\n";
+					if (!curr_test->report_positive.empty())
+						report += indent + curr_test->report_positive + "\n";
+					if (curr_test->is_error)
+						error_flag = true;
+				}
+				else
+				{
+					report += "  --> OK\n";
+					if (!curr_test->report_negative.empty())
+						report += indent + curr_test->report_negative + "\n";
+				}
+
+				// delete formula;
+				trace_test_queue.front().tests.pop_front();
+				formula = get_next_formula();
+				curr_test = get_next_stl_test();
+			}
+			trace_test_queue.pop_front();
+		}
+		report += "\n";
+		return error_flag;
+	}
+
+	void STLDriver::add_trace_test(const string &test_id, const string &trace_cfg, double sim_time, bool visu)
+	{
+		trace_test T;
+		T.id = test_id;
+		T.env = trace_cfg;
+		T.sim_time = sim_time;
+		T.visu = visu;
+		trace_test_queue.push_back(T);
+	}
+
+	double STLDriver::get_param(const string &param)
+	{
+		if (param_map.find(param) != param_map.end())
+		{
+			return param_map[param];
+		}
+		return 0;
+	}
+
+	void STLDriver::set_param(const string &param, double n)
+	{
+		// Update param map
+		if (param_map.find(param) != param_map.end())
+		{
+			param_map[param] = n;
+		}
+		// Update param map for all formulas
+		for (auto it = formula_map.begin(); it != formula_map.end(); it++)
+		{
+			((*it).second)->set_param(param, n);
+		}
+	}
+
+	/** Note: test inserted in the stl_test_map have no local parameters */
+	void STLDriver::add_stl_test(const string &test_id)
+	{
+
+		nb_test_total++;
+		if (!trace_test_queue.empty())
+		{
+			map<string, stl_test>::iterator elem;
+			if ((elem = stl_test_map.find(test_id)) != stl_test_map.end())
+			{
+				trace_test_queue.back().tests.push_back(elem->second);
+				trace_test_queue.back().tests.back().param_map.clear();
+			}
+		}
+	}
+
+	void STLDriver::add_stl_test(const string &test_id, const map<string, double> &local_param_map)
+	{
+
+		nb_test_total++;
+		if (!trace_test_queue.empty())
+		{
+			map<string, stl_test>::iterator elem;
+			if ((elem = stl_test_map.find(test_id)) != stl_test_map.end())
+			{
+
+				//			cout << "Test " << elem->first;
+				//			if (!local_param_map.empty()) {
+				//				cout << " with local param:" << endl;
+				//				for (auto elemp = local_param_map.begin(); elemp != local_param_map.end(); elemp++)
+				//					cout << elemp->first << "=" <<  elemp->second << endl;
+				//			}
+				//			else
+				//				cout << endl;
+
+				trace_test_queue.back().tests.push_back(elem->second);
+				trace_test_queue.back().tests.back().param_map = local_param_map;
+			}
+		}
+	}
+
+	void STLDriver::add_stl_test(const string &test_id, const map<string, double> &local_param_map, transducer *formula, const string &report_pos,
+								 const string &report_neg, bool is_err)
+	{
+
+		nb_test_total++;
+		if (!trace_test_queue.empty())
+		{
+			//		cout << "Inserting test " << test_id;
+			//		if (!local_param_map.empty()) {
+			//			cout << " with local param:" << endl;
+			//			for (auto elemp = local_param_map.begin(); elemp != local_param_map.end(); elemp++)
+			//				cout << elemp->first << "=" <<  elemp->second << endl;
+			//		}
+			//		else
+			//			cout << endl;
+
+			stl_test_map[test_id] = stl_test(test_id, local_param_map, formula->clone(), report_pos, report_neg, is_err);
+			stl_test_map[test_id].param_map = local_param_map;
+			trace_test_queue.back().tests.push_back(stl_test_map[test_id]);
+		}
+	}
+
+	void STLDriver::add_sample(vector<double> s)
+	{
+		if (s.size() != signal_map.size() + 1)
+		{
+			throw std::invalid_argument("Sample size does not match the number of signals.");
+		}
+		if (!data.empty() && s[0] <= data.back()[0])
+		{
+			throw std::invalid_argument("Sample time must be strictly greater than the last sample time.");
+		}
+		data.push_back(s);
+	}
+
+	STLMonitor STLDriver::get_monitor(const string &id) const
+	{
+		STLMonitor phi;
+		auto it = formula_map.find(id); // FYI was map<string,transducer*>::const_iterator it;
+
+		if (it != formula_map.end() && it->second != nullptr)
+		{
+			if (it->second != nullptr)
+			{
+				try
+				{
+					phi.interpol = interpol;
+					phi.semantics = semantics;
+					phi.data = data;
+					phi.formula = (it->second)->clone();
+					phi.signal_map = signal_map;
+					phi.param_map = param_map;
+					phi.start_time = 0.;
+					phi.end_time = 0.;
+					phi.rob = 0.;
+					phi.lower_rob = -Signal::BigM;
+					phi.upper_rob = Signal::BigM;
+				}
+				catch (const std::exception &e)
+				{
+					std::cerr << "Error while cloning or setting up the formula: " << e.what() << std::endl;
+					// Handle the error appropriately, possibly by returning an empty or default-initialized STLMonitor
+					return STLMonitor();
+				}
+			}
+		}
+		else
+		{
+			cout << "WARNING: Formula " << id << " undefined." << endl;
+		}
+
+		return phi;
+	}
+
+	vector<double> STLDriver::get_online_rob(const string &phi_in, double t0 = 0.)
+	{
+		// static vector<double> out_rob;
+		vector<double> out_rob;
+		if (data.empty())
+		{
+			cout << "Empty data" << endl;
+			return out_rob;
+		}
+
+		if (formula_map.find(phi_in) == formula_map.end())
+		{
+			cout << "Formula " << phi_in << " not found in formula_map." << endl;
+			return out_rob;
+		}
+		transducer *phi = formula_map[phi_in];
+		phi->set_trace_data_ptr(data);
+		phi->set_param_map_ptr(param_map);
+		Signal::semantics = semantics;
+		Signal::interpol = interpol;
+		phi->reset();
+		phi->set_horizon(t0, t0);
+		double rob = phi->compute_robustness();
+		double lower_rob = phi->compute_lower_rob();
+		double upper_rob = phi->compute_upper_rob();
+		out_rob = {rob, lower_rob, upper_rob};
+
+		return out_rob;
+	}
+
+	vector<double> STLDriver::get_online_rob(const string &phi_in)
+	{
+		return get_online_rob(phi_in, 0.);
+	}
+
+	void STLDriver::print_trace(ostream &os)
+	{
+		for (auto ii = data.begin(); ii != data.end(); ii++)
+		{
+			for (auto jj = (*ii).begin(); jj != (*ii).end(); jj++)
+			{
+				os << *jj << " ";
+			}
+			os << endl;
+		}
+	}
+
+	void STLDriver::print_trace()
+	{
+		print_trace(cout);
+	}
+
+	void STLDriver::dump_trace_file(const string &filename)
+	{
+		fstream ofs;
+		ofs.open(filename.c_str(), std::ofstream::out);
+		if (ofs.is_open())
+		{
+			ofs.precision(17); // enough to read the same values back
+			for (auto ii = data.begin(); ii != data.end(); ii++)
+			{
+				for (auto jj = (*ii).begin(); jj != (*ii).end(); jj++)
+				{
+					ofs << *jj << " ";
+				}
+				ofs << endl;
+			}
+			ofs.close();
+		}
+		else
+		{
+			cout << "Couldn't open file " << filename.c_str() << " for writing signal" << endl; // TODO implement exception
+		}
+	}
+
+	bool STLDriver::dump_test_log_file(const string &filename)
+	{
+
+		fstream ofs;
+		ofs.open(filename.c_str(), std::ofstream::out);
+		if (ofs.is_open())
+		{
+			ofs << test_log << endl;
+			ofs << "Number of positive STL tests: " << nb_test_pos << "/" << nb_test_total;
+			ofs.close();
+			return true;
+		}
+		else
+		{
+			cout << "Couldn't open file " << filename.c_str() << " for writing signal" << endl; // TODO implement exception
+			return false;
+		}
+	}
+
+} // namespace STLRom
-- 
2.43.0


From 4c0de5fc744819183a82cd0a4ceb7fe598277926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:48 +0000
Subject: [PATCH 34/34] fix: a sample without a value for the signal's column
 is refused instead of reading past its end

---
 src/stl_atom.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/stl_atom.cpp b/src/stl_atom.cpp
index 49ce337..1028ab2 100644
--- a/src/stl_atom.cpp
+++ b/src/stl_atom.cpp
@@ -80,8 +80,8 @@ namespace STLRom {
             
         if (i) {
             while ( (td_idx <= trace_data_ptr->size()-1)  && t<=end_time)   {
-                t = (trace_data_ptr->at(td_idx))[0];
-                v = (trace_data_ptr->at(td_idx))[i];
+                t = (trace_data_ptr->at(td_idx)).at(0);
+                v = (trace_data_ptr->at(td_idx)).at(i);
                 // cout << "t: " << t << " v: " << v << endl;
                 z.appendSample(t, v);
                 td_idx++;
@@ -120,7 +120,7 @@ namespace STLRom {
         double t=0.;  
             
         while ((td_idx <= trace_data_ptr->size()-1) && t<=end_time)   {
-            t = (trace_data_ptr->at(td_idx))[0];
+            t = (trace_data_ptr->at(td_idx)).at(0);
             z.appendSample(t, value);
             td_idx++;
         }
-- 
2.43.0

