From 20a392205bad655e15412f823a13666405669ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 01/74] fix: hash table iterator on an empty table read out of
 bounds and never ended

---
 src/ccpp_hash_table.F90 | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ccpp_hash_table.F90 b/src/ccpp_hash_table.F90
index 147ca5f..73eda3e 100644
--- a/src/ccpp_hash_table.F90
+++ b/src/ccpp_hash_table.F90
@@ -402,11 +402,14 @@ CONTAINS
       this%index = 0
       nullify(this%table_entry)
       do
+         if (this%index >= hash_table%table_size) then
+            ! There are no (more) entries, leave the iterator invalid
+            this%index = 0
+            exit
+         end if
          this%index = this%index + 1
          if (associated(hash_table%table(this%index)%entry_value)) then
             exit
-         else if (this%index > hash_table%table_size) then
-            this%index = 0
          end if
       end do
    end subroutine hash_iterator_initialize
-- 
2.43.0


From 39eb4a48d7ebde575d46a261fbcf101560794913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 02/74] fix: non-run phases called the schemes in scheme file
 order instead of suite definition order

---
 scripts/ccpp_suite.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/scripts/ccpp_suite.py b/scripts/ccpp_suite.py
index d2634c8..f1d1c93 100644
--- a/scripts/ccpp_suite.py
+++ b/scripts/ccpp_suite.py
@@ -426,19 +426,17 @@ character(len=16) :: {css_var_name} = '{state}'
         self.__ddt_library = ddt_library
         # Collect all relevant schemes
         # For all groups, find associated init and final methods
-        scheme_set = set()
+        # Keep the order of the suite definition file
+        suite_schemes = list()
         for group in self.groups:
             for scheme in group.schemes():
-                scheme_set.add(scheme.name)
+                if scheme.name not in suite_schemes:
+                    suite_schemes.append(scheme.name)
+                # end if
             # end for
         # end for
-        no_scheme_entries = {} # Skip schemes that are not in this suite
-        for module in scheme_library:
-            if module in scheme_set:
-                scheme_entries = scheme_library[module]
-            else:
-                scheme_entries = no_scheme_entries
-            # end if
+        for module in suite_schemes:
+            scheme_entries = scheme_library.get(module, {})
             for phase in self._full_phases:
                 if phase in scheme_entries:
                     header = scheme_entries[phase]
-- 
2.43.0


From bb5d592d9c1576ac41a0a869b31de1acc14ab5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 03/74] fix: converted intent(out) arguments were overwritten
 with an uninitialized local copy

---
 scripts/suite_objects.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 4fac98b..34cb69d 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -112,7 +112,8 @@ class CallList(VarDictionary):
         <is_func_call> should be set to True to construct a call statement.
         If <is_func_call> is False, construct a subroutine dummy argument
         list.
-        <sub_lname_list> may be a list of local_name substitutions.
+        <sub_lname_list> may be a dictionary of local_name substitutions
+        (with standard names as keys).
         """
         arg_str = ""
         arg_sep = ""
@@ -160,12 +161,11 @@ class CallList(VarDictionary):
                 # Are there any variable transforms for this scheme?
                 # If so, change Var's local_name need to local dummy array containing
                 # transformed argument, var_trans_local.
-                if sub_lname_list:
-                    for (var_trans_local, var_lname, sname, rindices, lindices, compat_obj) in sub_lname_list:
-                        if (sname == stdname):
-                            lname = var_trans_local
-                        # end if
-                    # end for
+                # Optional variables are passed using their local pointers
+                # (see above), which are associated with the local array.
+                has_trans = sub_lname_list and (stdname in sub_lname_list)
+                if has_trans and (not dvar.get_prop_value('optional')):
+                    lname = sub_lname_list[stdname]
                 # end if
                 if is_func_call:
                     if cldicts is not None:
@@ -1747,10 +1747,13 @@ class Scheme(SuiteObject):
         #    or our module
         cldicts = [self.__group, self.__group.call_list]
         cldicts.extend(self.__group.suite_dicts())
+        # Transformed arguments are passed using their local copies
+        trans_lnames = {x[2]:x[0] for x in self.__reverse_transforms}
+        trans_lnames.update({x[1]:x[2] for x in self.__forward_transforms})
         my_args = self.call_list.call_string(cldicts=cldicts,
                                              is_func_call=True,
                                              subname=self.subroutine_name,
-                                             sub_lname_list = self.__reverse_transforms)
+                                             sub_lname_list=trans_lnames)
         #
         outfile.write('', indent)
         outfile.write('if ({} == 0) then'.format(errcode), indent)
-- 
2.43.0


From c380016822889e94454151d79f4ad7e53cd357fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 04/74] fix: group arguments were declared with the kind and
 units of the first scheme using them

---
 scripts/suite_objects.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 34cb69d..231cb1a 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -920,10 +920,24 @@ class SuiteObject(VarDictionary):
                 raise CCPPError(errmsg)
             # end if
             # Add the variable to the parent call tree
-            if dict_dims == new_dict_dims:
-                sdict = {}
-            else:
-                sdict = {'dimensions':new_dict_dims}
+            # NB: The group argument is the variable provided by the host
+            #     (or by the suite), differences between this variable and
+            #     <var> are handled by transforms in the Scheme call.
+            sdict = {}
+            for prop in ['kind', 'units', 'top_at_one']:
+                dval = dict_var.get_prop_value(prop)
+                if dict_var.is_ddt() or (dval is None):
+                    continue
+                # end if
+                if (prop == 'kind') and (dval.lower()[0:4] == 'len='):
+                    continue
+                # end if
+                if dval != var.get_prop_value(prop):
+                    sdict[prop] = dval
+                # end if
+            # end for
+            if dict_dims != new_dict_dims:
+                sdict['dimensions'] = new_dict_dims
             # end if
             found_var = self.parent.add_variable_to_call_tree(var,
                                                               subst_dict=sdict)
-- 
2.43.0


From c3c954b14e61eadb552371721444ecf948d45a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 05/74] fix: generated local names were not registered so a
 third use of a dummy name produced a duplicate

---
 scripts/metavar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index 35878bc..99bdd7c 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1683,6 +1683,7 @@ class VarDictionary(OrderedDict):
             if gen_unique:
                 new_lname = self.new_internal_variable_name(prefix=lname)
                 newvar = newvar.clone(new_lname)
+                lname = new_lname
             elif not exists_ok:
                 errstr = 'Invalid local_name: {} already registered{}'
                 cstr = context_string(lvar.source.context, with_comma=True)
-- 
2.43.0


From 4eaa88a3bb33caa657e4a168c91dbe57be7e15e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 06/74] fix: transform copies of different variables shared one
 local name

---
 scripts/suite_objects.py | 43 ++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 231cb1a..ceefb66 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1653,12 +1653,9 @@ class Scheme(SuiteObject):
                               ParseSource(_API_SOURCE_NAME,
                                           _API_LOCAL_VAR_NAME, var.context),
                               self.run_env)
-        found = self.__group.find_variable(source_var=local_trans_var, any_scope=False)
-        if not found:
-            lmsg = "Adding new local variable, '{}', for variable transform"
-            self.run_env.logger.info(lmsg.format(local_trans_var.get_prop_value('local_name')))
-            self.__group.transform_locals.append(local_trans_var)
-        # end if
+        local_trans_var = self.__group.add_transform_local(local_trans_var)
+        lmsg = "Using local variable, '{}', for variable transform"
+        self.run_env.logger.info(lmsg.format(local_trans_var.get_prop_value('local_name')))
 
         # Create indices (default) for transform.
         lindices   = [':']*var.get_rank()
@@ -2223,6 +2220,40 @@ class Group(SuiteObject):
         self.add_call_list_variable(gvar, exists_ok=True)
         self.remove_variable(standard_name)
 
+    def add_transform_local(self, newvar):
+        """Return the local variable to use for a variable transform.
+        If a local variable which can hold <newvar> has already been declared
+        for a transform, return that variable, otherwise, add (and return)
+        <newvar> with a local name which is unique in this group.
+        """
+        def _decl_props(var):
+            """Return the properties which control how <var> is declared"""
+            return [var.get_prop_value(x) for x in
+                    ['standard_name', 'type', 'kind', 'optional']] +           \
+                    [var.get_dimensions()]
+        # end def
+        for tvar in self.transform_locals:
+            if _decl_props(tvar) == _decl_props(newvar):
+                return tvar
+            # end if
+        # end for
+        base = newvar.get_prop_value('local_name')
+        lname = base
+        index = 0
+        tnames = [x.get_prop_value('local_name').lower()
+                  for x in self.transform_locals]
+        while ((lname.lower() in tnames) or
+               (self.call_list.find_local_name(lname) is not None) or
+               (self.find_local_name(lname, any_scope=True) is not None)):
+            index += 1
+            lname = f"{base}{index}"
+        # end while
+        if lname != base:
+            newvar = newvar.clone(lname)
+        # end if
+        self.transform_locals.append(newvar)
+        return newvar
+
     def register_action(self, vaction):
         """Register any recognized <vaction> type for use during self.write.
         Return True iff <vaction> is handled.
-- 
2.43.0


From b78b1904fa5b592cf39de9dc855bd5015b2575ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 07/74] fix: transforms of variables owned by a group or suite
 failed

---
 scripts/suite_objects.py | 52 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 5 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index ceefb66..41bedf1 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -175,7 +175,8 @@ class CallList(VarDictionary):
                     # end if
                     run_phase = self.routine.run_phase()
                     # We only need dimensions for suite variables in run phase
-                    need_dims = SuiteObject.is_suite_variable(dvar) and run_phase
+                    need_dims = (SuiteObject.is_suite_variable(dvar) and
+                                 run_phase and (not has_trans))
                     vdims = var.call_dimstring(var_dicts=use_dicts,
                                                explicit_dims=need_dims,
                                                loop_subst=run_phase)
@@ -1719,6 +1720,49 @@ class Scheme(SuiteObject):
                                               local_trans_var.get_prop_value('local_name'),
                                               lindices, rindices, compat_obj])
         # end if
+
+    def transform_source(self, stdname, indices, cldicts):
+        """Return the local name and the indices to use for the variable,
+        <stdname>, in a transform. The variable is the Group's argument, a
+        variable owned by the Group or a variable owned by the Suite.
+        <indices> are the indices of a Group argument. Suite variables have
+        their full horizontal extent so the indices for the current columns
+        are needed in the run phase.
+        """
+        for cldict in cldicts:
+            lvar = cldict.find_variable(standard_name=stdname,
+                                        any_scope=False)
+            if lvar is not None:
+                break
+            # end if
+        # end for
+        if lvar is None:
+            emsg = "{}: Cannot find variable, '{}', for transform"
+            raise CCPPError(emsg.format(self.subroutine_name, stdname))
+        # end if
+        if SuiteObject.is_suite_variable(lvar) and self.run_phase():
+            svar = self.call_list.find_variable(standard_name=stdname,
+                                                any_scope=False)
+            _, hdim = find_horizontal_dimension(svar.get_dimensions())
+            if hdim >= 0:
+                bounds = list()
+                for bname in ['horizontal_loop_begin', 'horizontal_loop_end']:
+                    bvar = self.__group.find_variable(standard_name=bname,
+                                                      any_scope=False,
+                                                      search_call_list=True)
+                    if bvar is None:
+                        emsg = "{}: Cannot find variable, '{}', for transform"
+                        raise CCPPError(emsg.format(self.subroutine_name,
+                                                    bname))
+                    # end if
+                    bounds.append(bvar.get_prop_value('local_name'))
+                # end for
+                indices = list(indices)
+                indices[hdim] = ':'.join(bounds)
+            # end if
+        # end if
+        return lvar.get_prop_value('local_name'), indices
+
     def write_var_transform(self, var, dummy, rindices, lindices, compat_obj,
                             outfile, indent, forward):
         """Write variable transformation needed to call this Scheme in <outfile>.
@@ -1798,8 +1842,7 @@ class Scheme(SuiteObject):
             # may have since changed. Here we need to use the standard_name
             # from <var> and replace its local_name with the local_name from the
             # Group's call_list.
-            lvar       = self.__group.call_list.find_variable(standard_name=var_sname)
-            lvar_lname = lvar.get_prop_value('local_name')
+            lvar_lname, rindices = self.transform_source(var_sname, rindices, cldicts)
             tstmt = self.write_var_transform(lvar_lname, dummy, rindices, lindices, compat_obj, outfile, indent+1, False)
         # end for
         outfile.write('',indent+1)
@@ -1846,8 +1889,7 @@ class Scheme(SuiteObject):
             # may have since changed. Here we need to use the standard_name
             # from <var> and replace its local_name with the local_name from the
             # Group's call_list.
-            lvar       = self.__group.call_list.find_variable(standard_name=var_sname)
-            lvar_lname = lvar.get_prop_value('local_name')
+            lvar_lname, rindices = self.transform_source(var_sname, rindices, cldicts)
             tstmt = self.write_var_transform(lvar_lname, dummy, rindices, lindices, compat_obj, outfile, indent+1, True)
         # end for
         outfile.write('', indent)
-- 
2.43.0


From bd36003c34e710b5d375c40a390355e24ae8cd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 08/74] fix: subcycles could not be generated

---
 scripts/suite_objects.py | 63 ++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 21 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 41bedf1..9b6ad5f 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2036,18 +2036,14 @@ class Subcycle(SuiteObject):
         name = sub_xml.get('name', None) # Iteration count
         loop_extent = sub_xml.get('loop', "1") # Number of iterations
         # See if our loop variable is an interger or a variable
+        self._loop = loop_extent
+        self._loop_index = None # Local name of the loop index
+        self._group = None
         try:
             loop_int = int(loop_extent) # pylint: disable=unused-variable
-            self._loop = loop_extent
             self._loop_var_int = True
         except ValueError:
             self._loop_var_int = False
-            lvar = parent.find_variable(standard_name=self.loop, any_scope=True)
-            if lvar is None:
-                emsg = "Subcycle, {}, specifies {} iterations but {} not found"
-                raise CCPPError(emsg.format(name, self.loop, self.loop))
-            # end if
-            parent.add_call_list_variable(lvar)
         # end try
         super().__init__(name, context, parent, run_env)
         for item in sub_xml:
@@ -2060,12 +2056,30 @@ class Subcycle(SuiteObject):
         if self.name is None:
             self.name = "subcycle_index{}".format(level)
         # end if
-        # Create a variable for the loop index
-        self.add_variable(Var({'local_name':self.name,
-                               'standard_name':'loop_variable',
-                               'type':'integer', 'units':'count',
-                               'dimensions':'()'}, _API_SOURCE, self.run_env),
-                          self.run_env)
+        self._group = group
+        # Create a variable for the loop index, the Group will manage it
+        self._loop_index = self.name
+        index = 0
+        while (group.find_variable(standard_name=self._loop_index.lower(),
+                                   any_scope=True) or
+               group.find_local_name(self._loop_index) or
+               group.call_list.find_local_name(self._loop_index)):
+            index += 1
+            self._loop_index = f"{self.name}_{index}"
+        # end while
+        group.manage_variable(Var({'local_name':self._loop_index,
+                                   'standard_name':self._loop_index.lower(),
+                                   'type':'integer', 'units':'count',
+                                   'dimensions':'()'}, _API_LOCAL, self.run_env))
+        # Make sure the number of iterations is available to the Group
+        if not self._loop_var_int:
+            lvar = self.find_variable(standard_name=self._loop, any_scope=True)
+            if lvar is None:
+                emsg = "Subcycle, {}, specifies {} iterations but {} not found"
+                raise CCPPError(emsg.format(self.name, self._loop, self._loop))
+            # end if
+            self.parent.add_call_list_variable(lvar, exists_ok=True)
+        # end if
         # Handle all the suite objects inside of this subcycle
         scheme_mods = set()
         for item in self.parts:
@@ -2079,23 +2093,30 @@ class Subcycle(SuiteObject):
 
     def write(self, outfile, errcode, errmsg, indent):
         """Write code for the subcycle loop, including contents, to <outfile>"""
-        outfile.write('do {} = 1, {}'.format(self.name, self.loop), indent)
+        outfile.write('do {} = 1, {}'.format(self._loop_index, self.loop),
+                      indent)
         # Note that 'scheme' may be a sybcycle or other construct
         for item in self.parts:
             item.write(outfile, errcode, errmsg, indent+1)
         # end for
-        outfile.write('end do', 2)
+        outfile.write('end do', indent)
 
     @property
     def loop(self):
         """Return the loop value or variable local_name"""
-        lvar = self.find_variable(standard_name=self.loop, any_scope=True)
-        if lvar is None:
-            emsg = "Subcycle, {}, specifies {} iterations but {} not found"
-            raise CCPPError(emsg.format(self.name, self.loop, self.loop))
+        if self._loop_var_int:
+            return self._loop
         # end if
-        lname = lvar.get_prop_value('local_name')
-        return lname
+        group = self._group
+        for vdict in [group, group.call_list] + group.suite_dicts():
+            lvar = vdict.find_variable(standard_name=self._loop,
+                                       any_scope=False)
+            if lvar is not None:
+                return lvar.get_prop_value('local_name')
+            # end if
+        # end for
+        emsg = "Subcycle, {}, specifies {} iterations but {} not found"
+        raise CCPPError(emsg.format(self.name, self._loop, self._loop))
 
 ###############################################################################
 
-- 
2.43.0


From 3d9604de51d0385f4eaf2711185ef5d06c266105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 09/74] fix: optional arguments could be passed as present when
 inactive, lose their converted output or not compile

---
 scripts/metavar.py       |   5 +-
 scripts/suite_objects.py | 242 ++++++++++++++++++++++-----------------
 2 files changed, 137 insertions(+), 110 deletions(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index 99bdd7c..955a5ae 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1113,7 +1113,7 @@ class Var:
         else:
             comma = ' '
         # end if
-        if self.get_prop_value('target'):
+        if self.get_prop_value('target') or (target and not (allocatable or dummy)):
             targ = ", target"
         else:
             targ = ""
@@ -1141,7 +1141,8 @@ class Var:
                                   name=name, dims=dimstr, cspace=cspace,
                                   sname=stdname), indent)
 
-    def write_ptr_def(self, outfile, indent, name, kind, dimstr, vtype, extra_space=0):
+    @staticmethod
+    def write_ptr_def(outfile, indent, name, kind, dimstr, vtype, extra_space=0):
         """Write the definition line for local null pointer declaration to <outfile>."""
         comma = ', '
         if kind:
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 9b6ad5f..b800a04 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -143,11 +143,6 @@ class CallList(VarDictionary):
                         raise CCPPError(errmsg.format(stdname, clnames))
                     # end if
                     lname = dvar.get_prop_value('local_name')
-                    # Optional variables in the caps are associated with 
-                    # local pointers of <lname>_ptr
-                    if dvar.get_prop_value('optional'):
-                        lname = dummy+'_ptr'
-                    # end if
                 else:
                     cldict = None
                     aref = var.array_ref(local_name=dummy)
@@ -161,13 +156,13 @@ class CallList(VarDictionary):
                 # Are there any variable transforms for this scheme?
                 # If so, change Var's local_name need to local dummy array containing
                 # transformed argument, var_trans_local.
-                # Optional variables are passed using their local pointers
-                # (see above), which are associated with the local array.
+                # Optional variables in the caps are passed using local pointers.
+                # Both have the dimensions required by the scheme.
                 has_trans = sub_lname_list and (stdname in sub_lname_list)
-                if has_trans and (not dvar.get_prop_value('optional')):
+                if has_trans:
                     lname = sub_lname_list[stdname]
                 # end if
-                if is_func_call:
+                if is_func_call and (not has_trans):
                     if cldicts is not None:
                         use_dicts = cldicts
                     else:
@@ -175,8 +170,7 @@ class CallList(VarDictionary):
                     # end if
                     run_phase = self.routine.run_phase()
                     # We only need dimensions for suite variables in run phase
-                    need_dims = (SuiteObject.is_suite_variable(dvar) and
-                                 run_phase and (not has_trans))
+                    need_dims = SuiteObject.is_suite_variable(dvar) and run_phase
                     vdims = var.call_dimstring(var_dicts=use_dicts,
                                                explicit_dims=need_dims,
                                                loop_subst=run_phase)
@@ -1283,20 +1277,25 @@ class Scheme(SuiteObject):
                 # end if
             # end if
             # Are there any forward/reverse transforms for this variable?
-            has_transform = False
             if compat_obj is not None and (compat_obj.has_vert_transforms or
                                            compat_obj.has_unit_transforms or
                                            compat_obj.has_kind_transforms):
                 self.add_var_transform(var, compat_obj, vert_dim)
-                has_transform = True
             # end if
 
             # Is this a conditionally allocated variable?
             # If so, declare localpointer variable. This is needed to
             # pass inactive (not present) status through the caps.
             if var.get_prop_value('optional'):
-                newvar_ptr = var.clone(var.get_prop_value('local_name')+'_ptr')
-                self.__optional_vars.append([dict_var, var, newvar_ptr, has_transform])
+                ptr_name = self.__group.add_pointer(var)
+                self.__optional_vars.append([dict_var, var, ptr_name])
+                # The variables used in the condition must be available
+                if dict_var:
+                    conditional = dict_var.conditional(self.conditional_dicts())
+                    for var_needed in conditional[1]:
+                        self.update_group_call_list_variable(var_needed)
+                    # end for
+                # end if
             # end if
 
         # end for
@@ -1602,38 +1601,37 @@ class Scheme(SuiteObject):
                 # end if
                 outfile.write('',indent)
 
-    def associate_optional_var(self, dict_var, var, var_ptr, has_transform, cldicts, indent, outfile):
-        """Write local pointer association for optional variables."""
-        if (dict_var):
-            (conditional, _) = dict_var.conditional(cldicts)
-            if (has_transform):
-                lname = var.get_prop_value('local_name')+'_local'
-            else:
-                lname = var.get_prop_value('local_name')
-            # end if
-            lname_ptr = var_ptr.get_prop_value('local_name')
-            outfile.write(f"if {conditional} then", indent)
-            outfile.write(f"{lname_ptr} => {lname}", indent+1)
-            outfile.write(f"end if", indent)
-        # end if
-
-    def assign_pointer_to_var(self, dict_var, var, var_ptr, has_transform, cldicts, indent, outfile):
-        """Assign local pointer to variable."""
-        if (dict_var):
-            intent = var.get_prop_value('intent')
-            if (intent == 'out' or intent == 'inout'):
-                (conditional, _) = dict_var.conditional(cldicts)
-                if (has_transform):
-                    lname = var.get_prop_value('local_name')+'_local'
-                else:
-                    lname = var.get_prop_value('local_name')
-                # end if
-                lname_ptr = var_ptr.get_prop_value('local_name')
-                outfile.write(f"if {conditional} then", indent)
-                outfile.write(f"{lname} = {lname_ptr}", indent+1)
-                outfile.write(f"end if", indent)
+    def conditional_dicts(self):
+        """Return the dictionaries used to find the variables in the condition
+        of a conditionally allocated variable (Group arguments have priority)"""
+        return ([self.__group.call_list, self.__group] +
+                self.__group.suite_dicts())
+
+    def optional_condition(self, dict_var, var, cldicts):
+        """Return a tuple with two entries for the optional variable, <var>:
+        - True iff <var> has to be passed using its local pointer
+        - The condition for <var> being present or None if <var> is never
+          present (i.e., it is not provided by the host or by another scheme)
+        """
+        stdname = var.get_prop_value('standard_name')
+        for cldict in cldicts:
+            dvar = cldict.find_variable(standard_name=stdname, any_scope=False)
+            if dvar is not None:
+                break
             # end if
+        # end for
+        if (dvar is not None) and (not dvar.get_prop_value('optional')):
+            return False, '.true.'
+        # end if
+        if SuiteObject.is_suite_variable(dvar):
+            # Suite variables are always allocated
+            return False, '.true.'
+        # end if
+        if (dict_var is None) or (cldict is self.__group):
+            return True, None
         # end if
+        conditional, _ = dict_var.conditional(self.conditional_dicts())
+        return True, conditional
 
     def add_var_transform(self, var, compat_obj, vert_dim):
         """Register any variable transformation needed by <var> for this Scheme.
@@ -1721,6 +1719,18 @@ class Scheme(SuiteObject):
                                               lindices, rindices, compat_obj])
         # end if
 
+    def write_optional_transform(self, optional_var, lname, dummy, rindices, lindices,
+                                 compat_obj, outfile, indent, forward):
+        """Write the transform for an optional variable (see <write_var_transform>).
+        An inactive variable must not be used."""
+        _, _, conditional = optional_var
+        if conditional is not None:
+            outfile.write(f"if ({conditional}) then", indent)
+            self.write_var_transform(lname, dummy, rindices, lindices, compat_obj,
+                                     outfile, indent+1, forward)
+            outfile.write("end if", indent)
+        # end if
+
     def transform_source(self, stdname, indices, cldicts):
         """Return the local name and the indices to use for the variable,
         <stdname>, in a transform. The variable is the Group's argument, a
@@ -1805,6 +1815,30 @@ class Scheme(SuiteObject):
         # Transformed arguments are passed using their local copies
         trans_lnames = {x[2]:x[0] for x in self.__reverse_transforms}
         trans_lnames.update({x[1]:x[2] for x in self.__forward_transforms})
+        # Optional arguments are passed using local pointers which are only
+        # associated if the argument is active.
+        optional_vars = {}
+        for dict_var, var, ptr_name in self.__optional_vars:
+            use_ptr, conditional = self.optional_condition(dict_var, var, cldicts)
+            if use_ptr:
+                stdname = var.get_prop_value('standard_name')
+                local = trans_lnames.get(stdname, None)
+                if local is None:
+                    local = self.transform_source(stdname, None, cldicts)[0]
+                    svar = self.call_list.find_variable(standard_name=stdname,
+                                                        any_scope=False)
+                    vdims = svar.call_dimstring(var_dicts=cldicts,
+                                                loop_subst=self.run_phase())
+                    if _BLANK_DIMS_RE.match(vdims) is None:
+                        local = local + vdims
+                    # end if
+                # end if
+                optional_vars[stdname] = (ptr_name, local, conditional)
+            # end if
+        # end for
+        for stdname, (ptr_name, _, _) in optional_vars.items():
+            trans_lnames[stdname] = ptr_name
+        # end for
         my_args = self.call_list.call_string(cldicts=cldicts,
                                              is_func_call=True,
                                              subname=self.subroutine_name,
@@ -1843,17 +1877,28 @@ class Scheme(SuiteObject):
             # from <var> and replace its local_name with the local_name from the
             # Group's call_list.
             lvar_lname, rindices = self.transform_source(var_sname, rindices, cldicts)
-            tstmt = self.write_var_transform(lvar_lname, dummy, rindices, lindices, compat_obj, outfile, indent+1, False)
+            if var_sname in optional_vars:
+                self.write_optional_transform(optional_vars[var_sname], lvar_lname, dummy,
+                                              rindices, lindices, compat_obj, outfile,
+                                              indent+1, False)
+            else:
+                tstmt = self.write_var_transform(lvar_lname, dummy, rindices, lindices, compat_obj, outfile, indent+1, False)
+            # end if
         # end for
         outfile.write('',indent+1)
         #
         # Associate any conditionally allocated variables.
         #
-        if self.__optional_vars:
+        if optional_vars:
             outfile.write('! Associate conditional variables', indent+1)
-        # end if 
-        for (dict_var, var, var_ptr, has_transform) in self.__optional_vars:
-            tstmt = self.associate_optional_var(dict_var, var, var_ptr, has_transform, cldicts, indent+1, outfile)
+        # end if
+        for ptr_name, local, conditional in optional_vars.values():
+            outfile.write(f"nullify({ptr_name})", indent+1)
+            if conditional is not None:
+                outfile.write(f"if ({conditional}) then", indent+1)
+                outfile.write(f"{ptr_name} => {local}", indent+2)
+                outfile.write("end if", indent+1)
+            # end if
         # end for
         # 
         # Write the scheme call.
@@ -1866,18 +1911,6 @@ class Scheme(SuiteObject):
             outfile.write('',indent+1)
         # end if
         #
-        # Copy any local pointers.
-        #
-        first_ptr_declaration=True
-        for (dict_var, var, var_ptr, has_transform) in self.__optional_vars:
-            if first_ptr_declaration: 
-                outfile.write('! Copy any local pointers to dummy/local variables', indent+1)
-                first_ptr_declaration=False
-            # end if
-            tstmt = self.assign_pointer_to_var(dict_var, var, var_ptr, has_transform, cldicts, indent+1, outfile)
-        # end for
-        outfile.write('',indent+1)
-        #
         # Write any forward (post-Scheme) transforms.
         #
         if len(self.__forward_transforms) > 0:
@@ -1890,7 +1923,13 @@ class Scheme(SuiteObject):
             # from <var> and replace its local_name with the local_name from the
             # Group's call_list.
             lvar_lname, rindices = self.transform_source(var_sname, rindices, cldicts)
-            tstmt = self.write_var_transform(lvar_lname, dummy, rindices, lindices, compat_obj, outfile, indent+1, True)
+            if var_sname in optional_vars:
+                self.write_optional_transform(optional_vars[var_sname], lvar_lname, dummy,
+                                              rindices, lindices, compat_obj, outfile,
+                                              indent+1, True)
+            else:
+                tstmt = self.write_var_transform(lvar_lname, dummy, rindices, lindices, compat_obj, outfile, indent+1, True)
+            # end if
         # end for
         outfile.write('', indent)
         outfile.write('end if', indent)
@@ -2258,6 +2297,7 @@ class Group(SuiteObject):
         self._set_state = None
         self._ddt_library = None
         self.transform_locals = list()
+        self._pointers = list() # [name, kind, dimension string, type]
 
     def phase_match(self, scheme_name):
         """If scheme_name matches the group phase, return the group and
@@ -2283,6 +2323,34 @@ class Group(SuiteObject):
         self.add_call_list_variable(gvar, exists_ok=True)
         self.remove_variable(standard_name)
 
+    def add_pointer(self, var):
+        """Return the name of a local pointer which can be associated with the
+        optional variable, <var>. Pointers can be shared by several schemes."""
+        if var.is_ddt():
+            vtype = 'type'
+        else:
+            vtype = var.get_prop_value('type')
+        # end if
+        kind = var.get_prop_value('kind')
+        rank = var.get_rank()
+        if rank > 0:
+            dimstr = '(:' + ',:'*(rank - 1) + ')'
+        else:
+            dimstr = ''
+        # end if
+        base = var.get_prop_value('local_name') + '_ptr'
+        name = base
+        index = 0
+        used = {x[0].lower():x[1:] for x in self._pointers}
+        while used.get(name.lower(), [kind, dimstr, vtype]) != [kind, dimstr, vtype]:
+            index += 1
+            name = f"{base}{index}"
+        # end while
+        if name.lower() not in used:
+            self._pointers.append([name, kind, dimstr, vtype])
+        # end if
+        return name
+
     def add_transform_local(self, newvar):
         """Return the local variable to use for a variable transform.
         If a local variable which can hold <newvar> has already been declared
@@ -2486,8 +2554,7 @@ class Group(SuiteObject):
         subpart_scalar_vars = {}
         allocatable_var_set = set()
         optional_var_set = set()
-        pointer_var_set = list()
-        inactive_var_set = set()
+        pointer_var_set = self._pointers
         for item in [self]:# + self.parts:
             for var in item.declarations():
                 lname = var.get_prop_value('local_name')
@@ -2507,9 +2574,7 @@ class Group(SuiteObject):
                             if (self.call_list.find_variable(standard_name=sname)):
                                 subpart_optional_vars[lname] = (var, item, opt_var)
                                 optional_var_set.add(lname)
-                            else:
-                                inactive_var_set.add(var)
-                            # end if
+                            # end if (no else, null pointers are passed)
                         else:
                             subpart_allocate_vars[lname] = (var, item, opt_var)
                             allocatable_var_set.add(lname)
@@ -2519,45 +2584,6 @@ class Group(SuiteObject):
                     # end if
                 # end if
             # end for
-            # All optional dummy variables within group need to have 
-            # an associated pointer array declared. 
-            for cvar in self.call_list.variable_list():
-                opt_var = cvar.get_prop_value('optional')
-                if opt_var:
-                    name = cvar.get_prop_value('local_name')+'_ptr'
-                    kind = cvar.get_prop_value('kind')
-                    dims = cvar.get_dimensions()
-                    if cvar.is_ddt():
-                        vtype = 'type'
-                    else:
-                        vtype = cvar.get_prop_value('type')
-                    # end if
-                    if dims:
-                        dimstr = '(:' + ',:'*(len(dims) - 1) + ')'
-                    else:
-                        dimstr = ''
-                    # end if
-                    pointer_var_set.append([name,kind,dimstr,vtype])
-                # end if
-            # end for
-            # Any optional arguments that are not requested by the host need to have
-            # a local null pointer passed from the group to the scheme.
-            for ivar in inactive_var_set:
-                name = ivar.get_prop_value('local_name')+'_ptr'
-                kind = ivar.get_prop_value('kind')
-                dims = ivar.get_dimensions()
-                if ivar.is_ddt():
-                    vtype = 'type'
-                else:
-                    vtype = ivar.get_prop_value('type')
-                # end if
-                if dims:
-                    dimstr = '(:' + ',:'*(len(dims) - 1) + ')'
-                else:
-                    dimstr = ''
-                # end if
-                pointer_var_set.append([name,kind,dimstr,vtype])
-            # end for
             # Any arguments used in variable transforms before or after the
             # Scheme call? If so, declare local copy for reuse in the Group cap.
             for ivar in self.transform_locals:
@@ -2642,7 +2668,7 @@ class Group(SuiteObject):
         # end for
         # Pointer variables
         for (name, kind, dim, vtype) in pointer_var_set:
-            var.write_ptr_def(outfile, indent+1, name,  kind, dim, vtype)
+            Var.write_ptr_def(outfile, indent+1, name,  kind, dim, vtype)
         # end for
         outfile.write('', 0)
         # Get error variable names
-- 
2.43.0


From 64c5d731466cded80b6651fa31c120092c3b2156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:28 +0000
Subject: [PATCH 10/74] fix: array references in host module tables could not
 be used

---
 scripts/host_model.py | 3 ++-
 scripts/metavar.py    | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/host_model.py b/scripts/host_model.py
index c3beb44..93a811b 100644
--- a/scripts/host_model.py
+++ b/scripts/host_model.py
@@ -195,7 +195,8 @@ class HostModel(VarDictionary):
             module = self.host_variable_module(name)
             used = self.__used_variables and (name in self.__used_variables)
             if module and used and (module != cap_modname):
-                varset.add((module, name))
+                # Array references are imported using the array name
+                varset.add((module, name.split('(')[0].strip()))
             # No else, either no module or a zero-length module name
             # End if
         # End for
diff --git a/scripts/metavar.py b/scripts/metavar.py
index 955a5ae..55ac8bd 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -857,6 +857,9 @@ class Var:
     @parent.setter
     def parent(self, parent_var):
         """Set this variable's parent if not already set"""
+        if parent_var is self.__parent_var:
+            return # Nothing to do
+        # end if
         if self.__parent_var is not None:
             emsg = 'Attempting to set parent for {} but parent already set'
             lname = self.get_prop_value('local_name')
-- 
2.43.0


From d27295fa64c5e536d8edfa6cfc87285ac26b188b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 11/74] fix: components of nested derived types were referenced
 without the enclosing component

---
 scripts/ddt_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/ddt_library.py b/scripts/ddt_library.py
index 3542559..5d6e807 100644
--- a/scripts/ddt_library.py
+++ b/scripts/ddt_library.py
@@ -38,7 +38,7 @@ class VarDDT(Var):
         source = var_ref.source
         super().__init__(var_ref, source, run_env, context=source.context)
         # Find the correct place for <new_field>
-        if isinstance(var_ref, Var):
+        if not isinstance(var_ref, VarDDT):
             # We are at a top level DDT var, set our field
             self.__field = new_field
         else:
-- 
2.43.0


From fc31ade82fd9bfdd17ef249c4ba82a9c9d40fe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:28 +0000
Subject: [PATCH 12/74] fix: register phase with several suites or repeated
 registration

Each suite's branch packed the run-time constituents of all suites (reading
unallocated arrays), suites sharing a register scheme could not be generated,
and registering a suite again aborted on an already allocated array.
---
 scripts/host_cap.py | 49 +++++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/scripts/host_cap.py b/scripts/host_cap.py
index f1d2880..42a4846 100644
--- a/scripts/host_cap.py
+++ b/scripts/host_cap.py
@@ -605,6 +605,7 @@ def write_host_cap(host_model, api, module_name, output_dir, run_env):
             # Create a dict of local variables for stage
             host_local_vars = VarDictionary(f"{host_model.name}_{stage}",
                                             run_env)
+            dyn_const_vars = list()
             has_dyn_consts = False
             # Create part call lists
             # Look for any loop-variable mismatch
@@ -622,7 +623,11 @@ def write_host_cap(host_model, api, module_name, output_dir, run_env):
                                              'dimensions' : '(:)', 'units' : 'none',
                                              'allocatable' : True, 'ddt_type' : 'ccpp_constituent_properties_t'}
                                 newvar = Var(prop_dict, _API_SOURCE, run_env)
-                                host_local_vars.add_variable(newvar, run_env)
+                                # Suites share a local variable of the same name
+                                lname = newvar.get_prop_value('local_name').lower()
+                                if lname not in [x.get_prop_value('local_name').lower() for x in dyn_const_vars]:
+                                    dyn_const_vars.append(newvar)
+                                # end if
                                 has_dyn_consts = True
                                 continue
                             else:
@@ -704,7 +709,7 @@ def write_host_cap(host_model, api, module_name, output_dir, run_env):
             for var in hdvars:
                 var.write_def(cap, 2, host_model, dummy=True)
             # End for
-            for var in host_local_vars.variable_list():
+            for var in dyn_const_vars + host_local_vars.variable_list():
                 var.write_def(cap, 2, host_model,
                               allocatable=var.get_prop_value('allocatable'))
             # End for
@@ -743,32 +748,36 @@ def write_host_cap(host_model, api, module_name, output_dir, run_env):
                     dyn_const_array = suite_dynamic_constituent_array_name(host_model, suite.name)
                     call_str = suite_part_call_list(host_model, const_dict, spart, False,
                                                                        dyn_const=True)
+                    # Only this suite's schemes fill the dynamic constituents
+                    dyn_const_locals = [x.get_prop_value('local_name')
+                                        for x in spart.call_list.variable_list()
+                                        if x.get_prop_value('type') == CONST_PROP_TYPE]
+                    if dyn_const_locals:
+                        # The constituents object may still refer to these
+                        cap.write(f"if (allocated({dyn_const_array})) then", 3)
+                        cap.write(f"{errflg_name} = 1", 4)
+                        emsg = f"Dynamic constituents of suite {suite.name} are already registered"
+                        cap.write(f"{errmsg_name} = '{emsg}'", 4)
+                        cap.write("return", 4)
+                        cap.write("end if", 3)
+                    # end if
                     cap.write(f"call {suite.name}_{stage}({call_str})", 3)
                     cap.write(f"if ({errflg_name} /= 0) then", 3)
                     cap.write("return", 4)
                     cap.write("end if", 3)
                     # Allocate the suite's dynamic constituents array
-                    size_string = "0+"
-                    for var in host_local_vars.variable_list():
-                        vtype = var.get_prop_value('type')
-                        if vtype == 'ccpp_constituent_properties_t':
-                            local_name = var.get_prop_value('local_name')
-                            size_string += f"size({local_name})+"
-                        # end if
-                    # end for
-                    if not has_dyn_consts:
+                    if not dyn_const_locals:
                         cap.comment("Suite does not return dynamic constituents; allocate to zero", 3)
-                    # end if
-                    cap.write(f"allocate({dyn_const_array}({size_string[:-1]}))", 3)
-                    if has_dyn_consts:
+                        cap.write(f"if (.not. allocated({dyn_const_array})) then", 3)
+                        cap.write(f"allocate({dyn_const_array}(0))", 4)
+                        cap.write("end if", 3)
+                    else:
+                        size_string = '+'.join([f"size({x})" for x in dyn_const_locals])
+                        cap.write(f"allocate({dyn_const_array}({size_string}))", 3)
                         cap.comment("Pack the suite-level dynamic, run-time constituents array", 3)
                         cap.write("num_dyn_consts = 0", 3)
-                    for var in host_local_vars.variable_list():
-                        vtype = var.get_prop_value('type')
-                        if vtype != 'ccpp_constituent_properties_t':
-                            continue
-                        # end if
-                        local_name = var.get_prop_value('local_name')
+                    # end if
+                    for local_name in dyn_const_locals:
                         cap.write(f"do const_index = 1, size({local_name})", 3)
                         cap.write(f"{dyn_const_array}(num_dyn_consts + const_index) = {local_name}(const_index)", 4)
                         cap.write("end do", 3)
-- 
2.43.0


From a8be2dcd61d0df64e8da82b05a6f5aa47521bf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 13/74] fix: variable lists of the suite query routine wrote
 out of bounds or ignored derived type elements

A variable used as input in one group and output in another was written past
the end of the list (or not at all) depending on the query flags, and the
elements of derived type arguments were never listed.
---
 scripts/ccpp_suite.py | 226 +++++-------------------------------------
 scripts/metavar.py    |   5 +-
 2 files changed, 28 insertions(+), 203 deletions(-)

diff --git a/scripts/ccpp_suite.py b/scripts/ccpp_suite.py
index f1d1c93..e42c4a0 100644
--- a/scripts/ccpp_suite.py
+++ b/scripts/ccpp_suite.py
@@ -836,7 +836,6 @@ class API(VarDictionary):
         ofile.write("logical {}:: input_vars_use".format(' '*34), 2)
         ofile.write("logical {}:: output_vars_use".format(' '*34), 2)
         ofile.write("logical {}:: struct_elements_use".format(' '*34), 2)
-        ofile.write("integer {}:: num_vars".format(' '*34), 2)
         ofile.write("", 0)
         ename = self._errcode_var.get_prop_value('local_name')
         ofile.write("{} = 0".format(ename), 2)
@@ -915,210 +914,33 @@ class API(VarDictionary):
                     # end if
                 # end for
             # end for
-            # Figure out how many total variables to return and allocate
-            #   variable_list to that size
+            # Write out the variable list for each combination of the
+            #    input_vars, output_vars, and struct_elements arguments
             ofile.write(oline.format(else_str, suite.name), 2)
-            ofile.write("if (input_vars_use .and. output_vars_use) then", 3)
-            have_elems = input_vars[2] or inout_vars[2] or output_vars[2]
-            if have_elems:
-                ofile.write("if (struct_elements_use) then", 4)
-                numvars = len(input_vars[0] | input_vars[2] | inout_vars[0] |
-                              inout_vars[2] | output_vars[0] | output_vars[2])
-                ofile.write("num_vars = {}".format(numvars), 5)
-                ofile.write("else", 4)
-            # end if
-            numvars = len(input_vars[0] | input_vars[1] | inout_vars[0] |
-                          inout_vars[1] | output_vars[0] | output_vars[1])
-            ofile.write("num_vars = {}".format(numvars), 5 if have_elems else 4)
-            if have_elems:
-                ofile.write("end if", 4)
-            # end if
-            ofile.write("else if (input_vars_use) then", 3)
-            have_elems = input_vars[2] or inout_vars[2]
-            if have_elems:
-                ofile.write("if (struct_elements_use) then", 4)
-                numvars = len(input_vars[0] | input_vars[2] |
-                              inout_vars[0] | inout_vars[2])
-                ofile.write("num_vars = {}".format(numvars), 5)
-                ofile.write("else", 4)
-            # end if
-            numvars = len(input_vars[0] | input_vars[1] |
-                          inout_vars[0] | inout_vars[1])
-            ofile.write("num_vars = {}".format(numvars), 5 if have_elems else 4)
-            if have_elems:
-                ofile.write("end if", 4)
-            # end if
-            ofile.write("else if (output_vars_use) then", 3)
-            have_elems = inout_vars[2] or output_vars[2]
-            if have_elems:
-                ofile.write("if (struct_elements_use) then", 4)
-                numvars = len(inout_vars[0] | inout_vars[2] |
-                              output_vars[0] | output_vars[2])
-                ofile.write("num_vars = {}".format(numvars), 5)
-                ofile.write("else", 4)
-            # end if
-            numvars = len(inout_vars[0] | inout_vars[1] |
-                          output_vars[0] | output_vars[1])
-            ofile.write("num_vars = {}".format(numvars), 5 if have_elems else 4)
-            if have_elems:
-                ofile.write("end if", 4)
-            # end if
+            var_sets = [("if (input_vars_use .and. output_vars_use) then",
+                         (input_vars, inout_vars, output_vars)),
+                        ("else if (input_vars_use) then",
+                         (input_vars, inout_vars)),
+                        ("else if (output_vars_use) then",
+                         (inout_vars, output_vars))]
+            for cond, sets in var_sets:
+                ofile.write(cond, 3)
+                leaf_vars = set().union(*[x[0] for x in sets])
+                array_vars = leaf_vars.union(*[x[1] for x in sets])
+                elem_vars = leaf_vars.union(*[x[2] for x in sets])
+                if array_vars == elem_vars:
+                    API.write_var_set_loop(ofile, 'variable_list', leaf_vars, 4)
+                else:
+                    ofile.write("if (struct_elements_use) then", 4)
+                    API.write_var_set_loop(ofile, 'variable_list', elem_vars, 5)
+                    ofile.write("else", 4)
+                    API.write_var_set_loop(ofile, 'variable_list', array_vars, 5)
+                    ofile.write("end if", 4)
+                # end if
+            # end for
             ofile.write("else", 3)
-            ofile.write("num_vars = 0", 4)
+            API.write_var_set_loop(ofile, 'variable_list', set(), 4)
             ofile.write("end if", 3)
-            ofile.write("allocate(variable_list(num_vars))", 3)
-            # Now, fill in the variable_list array
-            # Start with inout variables
-            elem_start = 1
-            leaf_start = 1
-            leaf_written_set = inout_vars[0].copy()
-            elem_written_set = inout_vars[0].copy()
-            leaf_list = sorted(inout_vars[0])
-            if inout_vars[0] or inout_vars[1] or inout_vars[2]:
-                ofile.write("if (input_vars_use .or. output_vars_use) then", 3)
-                API.write_var_set_loop(ofile, 'variable_list', leaf_list, 4,
-                                       add_allocate=False,
-                                       start_index=leaf_start)
-            # end if
-            leaf_start += len(leaf_list)
-            elem_start += len(leaf_list)
-            # elements which have not been written out
-            elem_list = sorted(inout_vars[2] - elem_written_set)
-            elem_written_set = elem_written_set | inout_vars[2]
-            leaf_list = sorted(inout_vars[1] - leaf_written_set)
-            leaf_written_set = leaf_written_set | inout_vars[1]
-            if elem_list or leaf_list:
-                ofile.write("if (struct_elements_use) then", 4)
-                API.write_var_set_loop(ofile, 'variable_list', elem_list, 5,
-                                       add_allocate=False,
-                                       start_index=elem_start)
-                elem_start += len(elem_list)
-                ofile.write("num_vars = {}".format(elem_start - 1), 5)
-                ofile.write("else", 4)
-                API.write_var_set_loop(ofile, 'variable_list', leaf_list, 5,
-                                       add_allocate=False,
-                                       start_index=leaf_start)
-                leaf_start += len(leaf_list)
-                ofile.write("num_vars = {}".format(leaf_start - 1), 5)
-                ofile.write("end if", 4)
-            else:
-                ofile.write("num_vars = {}".format(len(leaf_written_set)),
-                            4 if leaf_written_set else 3)
-            # end if
-            if inout_vars[0] or inout_vars[1] or inout_vars[2]:
-                ofile.write("end if", 3)
-            # end if
-            # Write input variables
-            leaf_list = sorted(input_vars[0] - leaf_written_set)
-            # Are there any output variables which are also input variables
-            #    (e.g., for a different part (group) of the suite)?
-            # We need to collect them now in case <input_vars> is selected
-            #    but not <output_vars>.
-            leaf_cross_set = output_vars[0] & input_vars[0]
-            simp_cross_set = (output_vars[1] & input_vars[1]) - leaf_cross_set
-            elem_cross_set = (output_vars[2] & input_vars[2]) - leaf_cross_set
-            # Subtract the variables which have already been written out
-            leaf_cross_list = sorted(leaf_cross_set - leaf_written_set)
-            simp_cross_list = sorted(simp_cross_set - leaf_written_set)
-            elem_cross_list = sorted(elem_cross_set - elem_written_set)
-            # Next move back to processing the input variables
-            leaf_written_set = leaf_written_set | input_vars[0]
-            elem_list = sorted(input_vars[2] - elem_written_set)
-            elem_written_set = elem_written_set | input_vars[0] | input_vars[2]
-            have_inputs = elem_list or leaf_list
-            if have_inputs:
-                ofile.write("if (input_vars_use) then", 3)
-                # elements which have not been written out
-            # end if
-            API.write_var_set_loop(ofile, 'variable_list', leaf_list, 4,
-                                   add_allocate=False, start_var="num_vars",
-                                   start_index=1)
-            if leaf_list:
-                ofile.write("num_vars = num_vars + {}".format(len(leaf_list)),
-                            4)
-            # end if
-            leaf_start += len(leaf_list)
-            elem_start += len(leaf_list)
-            leaf_list = input_vars[1].difference(leaf_written_set)
-            leaf_written_set.union(input_vars[1])
-            if elem_list or leaf_list:
-                ofile.write("if (struct_elements_use) then", 4)
-                API.write_var_set_loop(ofile, 'variable_list', elem_list, 5,
-                                       add_allocate=False,
-                                       start_index=elem_start)
-                elem_start += len(elem_list) - 1
-                ofile.write("num_vars = {}".format(elem_start), 5)
-                ofile.write("else", 4)
-                API.write_var_set_loop(ofile, 'variable_list', leaf_list, 5,
-                                       add_allocate=False,
-                                       start_index=leaf_start)
-                leaf_start += len(leaf_list) - 1
-                ofile.write("num_vars = {}".format(leaf_start), 5)
-                ofile.write("end if", 4)
-            # end if
-            if have_inputs:
-                ofile.write("end if", 3)
-            # end if
-            # Write output variables
-            leaf_list = sorted(output_vars[0].difference(leaf_written_set))
-            leaf_written_set = leaf_written_set.union(output_vars[0])
-            elem_written_set = elem_written_set.union(output_vars[0])
-            elem_list = sorted(output_vars[2].difference(elem_written_set))
-            elem_written_set = elem_written_set.union(output_vars[2])
-            have_outputs = elem_list or leaf_list
-            if have_outputs:
-                ofile.write("if (output_vars_use) then", 3)
-            # end if
-            leaf_start = 1
-            API.write_var_set_loop(ofile, 'variable_list', leaf_list, 4,
-                                   add_allocate=False, start_var="num_vars",
-                                   start_index=leaf_start)
-            leaf_start += len(leaf_list)
-            elem_start = leaf_start
-            leaf_list = output_vars[1].difference(leaf_written_set)
-            leaf_written_set.union(output_vars[1])
-            if elem_list or leaf_list:
-                ofile.write("if (struct_elements_use) then", 4)
-                API.write_var_set_loop(ofile, 'variable_list', elem_list, 5,
-                                       add_allocate=False, start_var="num_vars",
-                                       start_index=elem_start)
-                elem_start += len(elem_list)
-                ofile.write("else", 4)
-                API.write_var_set_loop(ofile, 'variable_list', leaf_list, 5,
-                                       add_allocate=False, start_var="num_vars",
-                                       start_index=leaf_start)
-                leaf_start += len(leaf_list)
-                ofile.write("end if", 4)
-            # end if
-            if leaf_cross_list or elem_cross_list:
-                ofile.write("if (.not. input_vars_use) then", 4)
-                API.write_var_set_loop(ofile, 'variable_list', leaf_cross_list,
-                                       5, add_allocate=False,
-                                       start_var="num_vars",
-                                       start_index=leaf_start)
-                leaf_start += len(leaf_cross_list)
-                elem_start += len(leaf_cross_list)
-                if elem_cross_list or simp_cross_list:
-                    ofile.write("if (struct_elements_use) then", 5)
-                    API.write_var_set_loop(ofile, 'variable_list',
-                                           elem_cross_list, 6,
-                                           add_allocate=False,
-                                           start_var="num_vars",
-                                           start_index=elem_start)
-                    elem_start += len(elem_list)
-                    ofile.write("else", 5)
-                    API.write_var_set_loop(ofile, 'variable_list',
-                                           leaf_cross_list, 6,
-                                           add_allocate=False,
-                                           start_var="num_vars",
-                                           start_index=leaf_start)
-                    leaf_start += len(leaf_list)
-                    ofile.write("end if", 5)
-                # end if
-                ofile.write("end if", 4)
-            if have_outputs:
-                ofile.write("end if", 3)
-            # end if
             else_str = 'else '
         # end for
         ofile.write("else", 2)
diff --git a/scripts/metavar.py b/scripts/metavar.py
index 55ac8bd..da35463 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -803,6 +803,9 @@ class Var:
                 for dvar in ddt_def.variable_list():
                     delems = dvar.intrinsic_elements(check_dict=check_dict,
                                                      ddt_lib=ddt_lib)
+                    if isinstance(delems, str):
+                        delems = [delems]
+                    # end if
                     if delems:
                         element_names.extend(delems)
                     # end if
@@ -839,7 +842,7 @@ class Var:
                     # end for
                 # end if
             # end for
-        else:
+        elif not self.is_ddt():
             element_names = self.get_prop_value('standard_name')
         # end if
         return element_names
-- 
2.43.0


From 0645994a3d612f19d3e4276feeaa9a211337a1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:33 +0000
Subject: [PATCH 14/74] fix: debug bounds checks of dummy arrays used the
 declared lower bound

Arrays passed into the group are assumed-shape dummies starting at one, so
with a declared lower bound other than one the check read out of bounds.
---
 scripts/suite_objects.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index b800a04..a12647c 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1553,8 +1553,14 @@ class Scheme(SuiteObject):
                         # Assemble dimensions and bounds for size checking
                         dim_length = f'{udim_lname}-{ldim_lname}+1'
                         dim_string = ":"
-                        lbound_string = ldim_lname
-                        ubound_string = udim_lname
+                        if var_in_call_list:
+                            # Assumed-shape dummy argument, starts at one
+                            lbound_string = '1'
+                            ubound_string = dim_length
+                        else:
+                            lbound_string = ldim_lname
+                            ubound_string = udim_lname
+                        # end if
                     # end if
                     dim_strings.append(dim_string)
                     lbound_strings.append(lbound_string)
-- 
2.43.0


From 1cd7555c347a982994818ce5f07647d78e67d509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 15/74] fix: Fortran literal check crashed on or accepted
 malformed literals and rejected valid character literals

---
 scripts/parse_tools/parse_checkers.py | 52 +++++++++++----------------
 1 file changed, 21 insertions(+), 31 deletions(-)

diff --git a/scripts/parse_tools/parse_checkers.py b/scripts/parse_tools/parse_checkers.py
index 469bf1d..8320641 100755
--- a/scripts/parse_tools/parse_checkers.py
+++ b/scripts/parse_tools/parse_checkers.py
@@ -229,6 +229,10 @@ FORTRAN_INTRINSIC_TYPES = ["integer", "real", "logical", "complex",
 FORTRAN_DP_RE = re.compile(r"(?i)double\s*precision")
 FORTRAN_TYPE_RE = re.compile(r"(?i)type\s*\(\s*("+FORTRAN_ID+r")\s*\)")
 
+_FORTRAN_INT_RE = re.compile(r"[+-]?[0-9]+$")
+_FORTRAN_REAL_RE = re.compile(r"[+-]?([0-9]+[.][0-9]*|[.][0-9]+)"
+                              r"([eE][+-]?[0-9]+)?$")
+
 _REGISTERED_FORTRAN_DDT_NAMES = []
 
 ########################################################################
@@ -661,7 +665,7 @@ def check_fortran_literal(value, typestr, kind):
             elif ('.' in cvals[0]) or ('.' in cvals[1]):
                 valid = False
             # end if
-            if (cvals[0][0] == '(') and (cvals[1][-1] == ')'):
+            if (cvals[0][0:1] == '(') and (cvals[1][-1:] == ')'):
                 valid = valid and check_fortran_literal(cvals[0][1:], tp, kind)
                 valid = valid and check_fortran_literal(cvals[1][:-1], tp, kind)
             else:
@@ -670,47 +674,33 @@ def check_fortran_literal(value, typestr, kind):
         else:
             valid = False
     elif valid:
-        vparts = value.strip().split('_')
         if vtype == 'character':
-            if len(vparts) > 1:
-                val = vparts[-1]
-                vkind = '_'.join(vparts[0:-1])
-            else:
-                val = vparts[0]
-                vkind = ''
+            # The kind (if any) precedes the opening quote
+            val = value.strip()
+            qpos = [x for x in [val.find("'"), val.find('"')] if x >= 0]
+            qpos = min(qpos) if qpos else len(val)
+            vkind = val[0:qpos]
+            val = val[qpos:]
+            if vkind:
+                valid = (vkind[-1] == '_') and (len(vkind) > 1)
+                vkind = vkind[0:-1]
             # end if
         else:
-            val = vparts[0]
-            if len(vparts) > 1:
-                vkind = '_'.join(vparts[1:])
-            else:
-                vkind = ''
-            # end if
+            val, sep, vkind = value.strip().partition('_')
+            valid = (not sep) or (len(vkind) > 0)
         # end if
-        if vkind != kind.lower():
+        if vkind.lower() != kind.lower():
             valid = False
         # end if, kind is okay, check value
         if valid and (vtype == 'integer'):
-            try:
-                vtest = int(val)
-            except ValueError as ve:
-                valid = False
-            # End try
+            valid = _FORTRAN_INT_RE.match(val) is not None
         elif valid and (vtype == 'real'):
-            if '.' not in val:
-                valid = False
-            else:
-                try:
-                    vtest = float(val)
-                except ValueError as ve:
-                    valid = False
-                # End try
-            # end if
+            valid = _FORTRAN_REAL_RE.match(val) is not None
         elif valid and (vtype == 'logical'):
             valid = (val.upper() == '.TRUE.') or (val.upper() == '.FALSE.')
         elif valid and (vtype == 'character'):
-            sep = val[0]
-            cparts = val.split(sep)
+            sep = val[0:1]
+            cparts = val.split(sep) if sep else []
             # We must have balanced delimiters
             if len(cparts)%2 == 0:
                 valid = False
-- 
2.43.0


From 3254ced700c5bcc168ea8d5e50e519d7ac453c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 16/74] fix: any text starting with "double precision" was
 accepted as a Fortran type

---
 scripts/parse_tools/parse_checkers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/parse_tools/parse_checkers.py b/scripts/parse_tools/parse_checkers.py
index 8320641..31fd267 100755
--- a/scripts/parse_tools/parse_checkers.py
+++ b/scripts/parse_tools/parse_checkers.py
@@ -495,7 +495,7 @@ def check_fortran_intrinsic(typestr, error=False):
     match = chk_type in FORTRAN_INTRINSIC_TYPES
     if (not match) and (chk_type[0:6] == 'double'):
         # Special case for double precision
-        match = FORTRAN_DP_RE.match(chk_type) is not None
+        match = FORTRAN_DP_RE.fullmatch(chk_type) is not None
     # End if
     if not match:
         if error:
-- 
2.43.0


From 6ce964835ff8ed041305f86d82807cc53acc66bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 17/74] fix: dimension check accepted Python integer syntax
 such as 1_1

---
 scripts/parse_tools/parse_checkers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/scripts/parse_tools/parse_checkers.py b/scripts/parse_tools/parse_checkers.py
index 31fd267..1bd2744 100755
--- a/scripts/parse_tools/parse_checkers.py
+++ b/scripts/parse_tools/parse_checkers.py
@@ -120,9 +120,8 @@ def check_dimensions(test_val, prop_dict, error, max_len=0):
             tdims = [x.strip() for x in isplit if len(x) > 0]
             for tdim in tdims:
                 # Check numeric value first
-                try:
-                    valid = isinstance(int(tdim), int)
-                except ValueError as ve:
+                valid = _FORTRAN_INT_RE.match(tdim) is not None
+                if not valid:
                     # Not an integer, try a Fortran ID
                     valid = check_fortran_id(tdim, None,
                                              error, max_len=max_len) is not None
@@ -139,7 +138,7 @@ def check_dimensions(test_val, prop_dict, error, max_len=0):
                             # end if
                         # end if
                     # end if
-                # End try
+                # end if
                 if not valid:
                     if error:
                         errmsg = "'{}' is an invalid dimension name"
-- 
2.43.0


From b816156e643dd17332a587d0777c814e4e7c7b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 18/74] fix: text around the parentheses of a dimension list
 was ignored

---
 scripts/parse_tools/parse_checkers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/parse_tools/parse_checkers.py b/scripts/parse_tools/parse_checkers.py
index 1bd2744..f82a277 100755
--- a/scripts/parse_tools/parse_checkers.py
+++ b/scripts/parse_tools/parse_checkers.py
@@ -295,9 +295,12 @@ def fortran_list_match(test_str):
 
     >>> fortran_list_match('(foo, bar')
 
+    >>> fortran_list_match('(foo, bar)baz')
+
     """
+    test_str = test_str.strip()
     parens, parene = check_balanced_paren(test_str)
-    if (parens >= 0) and (parene > parens):
+    if (parens == 0) and (parene == len(test_str) - 1):
         litems = [x.strip() for x in test_str[parens+1:parene].split(',')]
         if (len(litems) > 1) and (min([len(x) for x in litems]) == 0):
             litems = None
-- 
2.43.0


From 433a0ca644fa53b0da918b52f32dd415446c2ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 19/74] fix: malformed numeric attribute values crashed the
 metadata reader and NaN was a valid molar mass

---
 scripts/parse_tools/parse_checkers.py | 2 +-
 scripts/var_props.py                  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/parse_tools/parse_checkers.py b/scripts/parse_tools/parse_checkers.py
index f82a277..2966448 100755
--- a/scripts/parse_tools/parse_checkers.py
+++ b/scripts/parse_tools/parse_checkers.py
@@ -969,7 +969,7 @@ def check_molar_mass(test_val, prop_dict, error):
     # Check if input value is an int or float
     try:
         test_val = float(test_val)
-        if test_val < 0.0 or test_val > _MAX_MOLAR_MASS:
+        if not 0.0 <= test_val <= _MAX_MOLAR_MASS: # NB: also rejects NaN
            if error:
                raise CCPPError(f"{test_val} is not a valid molar mass")
            else:
diff --git a/scripts/var_props.py b/scripts/var_props.py
index fcbed74..d382e40 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -689,7 +689,7 @@ class VariableProperty:
                         valid_val = None # i.e. pass
                 else:
                     valid_val = tval
-            except CCPPError:
+            except (CCPPError, ValueError):
                 valid_val = None # Redundant but more expressive than pass
         elif self.ptype is float:
             try:
@@ -703,7 +703,7 @@ class VariableProperty:
                 else:
                     valid_val = tval
                 # end if
-            except CCPPError:
+            except (CCPPError, ValueError):
                 valid_val = None
             # end try
         elif self.ptype is list:
-- 
2.43.0


From 461b93164cfad80bbb7b570eaa306d15b066158e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:16 +0000
Subject: [PATCH 20/74] fix: blank values of required metadata attributes were
 accepted

---
 scripts/metadata_table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index 942f8d8..d369130 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -904,6 +904,9 @@ class MetadataSection(ParseSource):
                         check_prop = Var.get_prop(pname)
                         if check_prop is not None:
                             pval = check_prop.valid_value(pval_str)
+                            if (not pval_str) and (not check_prop.optional):
+                                pval = None # A required value is not blank
+                            # end if
                         else:
                             emsg = "variable property name"
                             self.__pobj.add_syntax_err(emsg, token=pname)
-- 
2.43.0


From 7d51d0def28fc36b21d6a3c706b43b602cfd9e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 21/74] fix: unknown metadata attribute as first attribute of a
 variable crashed the reader

---
 scripts/metadata_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index d369130..2a0a1ee 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -901,6 +901,7 @@ class MetadataSection(ParseSource):
                         # end if
                     else:
                         # Make sure this is a match
+                        pval = None
                         check_prop = Var.get_prop(pname)
                         if check_prop is not None:
                             pval = check_prop.valid_value(pval_str)
@@ -913,7 +914,7 @@ class MetadataSection(ParseSource):
                             self.__section_valid = False
                             var_ok = False
                         # end if
-                        if pval is None:
+                        if (pval is None) and (check_prop is not None):
                             errmsg = "'{}' property value"
                             self.__pobj.add_syntax_err(errmsg.format(pname),
                                                        token=pval_str)
-- 
2.43.0


From 96d4cb3c9121b08c8ae1143f36b20a3adac1ff9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:24 +0000
Subject: [PATCH 22/74] fix: character lengths of host and scheme variables
 were never compared

---
 scripts/var_props.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/var_props.py b/scripts/var_props.py
index d382e40..713254f 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -1345,7 +1345,7 @@ class VarCompatObj:
             kentries = [x.strip() for x in kind_str.split(',') if x.strip()]
             if len(kentries) == 1:
                 if kentries[0][0:4].lower() == 'len=':
-                    kind_ok = True
+                    kind_ok = 'len=' + kentries[0][4:].strip().lower()
                 # end if (no else, kind_ok already False)
             # end if (no else, kind_ok already False)
         # end if (no else, kind_ok already False)
-- 
2.43.0


From d15ddd005923f38f1271cf63b0ff0da5b8c8dccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:07 +0000
Subject: [PATCH 23/74] fix: scheme arguments incompatible with the matching
 variable were accepted

---
 scripts/suite_objects.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index a12647c..b907960 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -956,6 +956,16 @@ class SuiteObject(VarDictionary):
         if dict_var is not None:
             dict_var = self.parent.find_variable(source_var=var, any_scope=True)
             compat_obj = var.compatible(dict_var, run_env)
+            # Array dimensions have been matched above
+            dims_ok = vdims and (compat_obj.incompat_reason == 'dimensions')
+            if not (compat_obj.compat or dims_ok):
+                emsg = "Scheme argument, {}{}, is incompatible with {}{}: {}"
+                raise CCPPError(emsg.format(var.get_prop_value('local_name'),
+                                            context_string(var.context),
+                                            dict_var.get_prop_value('local_name'),
+                                            context_string(dict_var.context),
+                                            compat_obj.incompat_reason))
+            # end if
         # end if
         return found_var, dict_var, var_vdim, new_vdims, missing_vert, compat_obj
 
-- 
2.43.0


From 8534bb7df064dce6994d82b19444393b4fe45ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:38 +0000
Subject: [PATCH 24/74] fix: kind conversions of integer, logical and complex
 arguments used the real intrinsic

---
 scripts/var_props.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/scripts/var_props.py b/scripts/var_props.py
index 713254f..0493899 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -25,6 +25,9 @@ from parse_tools import ParseInternalError, ParseSyntaxError, CCPPError
 ###############################################################################
 _REAL_SUBST_RE = re.compile(r"(.*\d)p(\d.*)")
 _HDIM_TEMPNAME = '_CCPP_HORIZ_DIM'
+# Fortran intrinsics which change the kind of a value
+_KIND_CONVERSION_FUNCS = {'integer' : 'int', 'logical' : 'logical',
+                          'complex' : 'cmplx'}
 
 ###############################################################################
 # Supported horizontal dimensions (should be defined in CCPP_STANDARD_VARS)
@@ -874,6 +877,7 @@ class VarCompatObj:
         self.__stdname = var1_stdname
         self.__v1_context = v1_context
         self.__v2_context = v2_context
+        self.__type = var1_type.lower()
         self.__v1_kind = var1_kind
         self.__v2_kind = var2_kind
         self.v1_units = var1_units
@@ -1030,7 +1034,7 @@ class VarCompatObj:
 
         if self.has_kind_transforms:
             kind = self.__kind_transforms[1]
-            rhs_term = f"real({rhs_term}, {kind})"
+            rhs_term = self._kind_conversion(rhs_term, kind)
         else:
             kind = ''
         # end if
@@ -1075,7 +1079,7 @@ class VarCompatObj:
 
         if self.has_kind_transforms:
             kind = self.__kind_transforms[0]
-            rhs_term = f"real({rhs_term}, {kind})"
+            rhs_term = self._kind_conversion(rhs_term, kind)
         else:
             kind = ''
         # end if
@@ -1089,6 +1093,17 @@ class VarCompatObj:
         # end if
         return f"{lhs_term} = {rhs_term}"
 
+    def _kind_conversion(self, term, kind):
+        """Return the Fortran expression which converts <term> to <kind>"""
+        func = _KIND_CONVERSION_FUNCS.get(self.__type, 'real')
+        if not kind: # Default kind
+            return f"{func}({term})"
+        # end if
+        if func == 'cmplx': # The second argument is the imaginary part
+            kind = f"kind={kind}"
+        # end if
+        return f"{func}({term}, {kind})"
+
     def _get_kind_convstrs(self, var1_kind, var2_kind, run_env):
         """Attempt to determine if no transformation is required (i.e., if
            <var1_kind> and <var2_kind> will be the same at runtime. If so,
-- 
2.43.0


From 9766434e374ebdc0b4be4ef459dd2fb84e07ddd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 25/74] fix: variables with opposite vertical direction were
 reported as equivalent

---
 scripts/var_props.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/var_props.py b/scripts/var_props.py
index 0493899..e8ef8d0 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -983,6 +983,7 @@ class VarCompatObj:
         if self.__compat:
             # Check for vertical array flipping (do later)
             if var1_top != var2_top:
+                self.__equiv             = False
                 self.__compat            = True
                 self.has_vert_transforms = True
             # end if
-- 
2.43.0


From a3df1565ca48cd307ee8f00a4b2fb39f87478fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:35 +0000
Subject: [PATCH 26/74] fix: comparing variables without a horizontal dimension
 crashed when a dimension was written differently

---
 scripts/var_props.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/scripts/var_props.py b/scripts/var_props.py
index e8ef8d0..3e13ead 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -326,8 +326,9 @@ class DimTransform:
         # end if
         self.__forward_perm = forward_permutation
         self.__reverse_perm = reverse_permutation
-        if ((forward_hdim_index < 0) or
-            (forward_hdim_index >= len(forward_permutation))):
+        # We cannot test for negative horizontal dimension indices because
+        #     there may not be a horizontal dimension
+        if forward_hdim_index >= len(forward_permutation):
             emsg = "forward_hdim_index ({}) out of range [0, {}]"
             raise ParseInternalError(emsg.format(forward_hdim_index,
                                                  len(forward_permutation)-1))
@@ -341,8 +342,7 @@ class DimTransform:
                                                  len(forward_permutation)-1))
         # end if
         self.__forward_vdim_index = forward_vdim_index
-        if ((reverse_hdim_index < 0) or
-            (reverse_hdim_index >= len(reverse_permutation))):
+        if reverse_hdim_index >= len(reverse_permutation):
             emsg = "reverse_hdim_index ({}) out of range [0, {}]"
             raise ParseInternalError(emsg.format(reverse_hdim_index,
                                                  len(reverse_permutation)-1))
@@ -362,13 +362,13 @@ class DimTransform:
         #    extent, "horizontal_dimension" begin at "horizontal_loop_begin"
         #    during the run phase.
         self.__v1_hloop = self.__is_horizontal_loop_dimension(forward_hdim)
-        if ((not self.__v1_hloop) and
+        if ((forward_hdim_index >= 0) and (not self.__v1_hloop) and
             (not ("horizontal_dimension" in forward_hdim))):
             emsg = "Uncategorized forward horizontal dimension, '{}'"
             raise ParseInternalError(emsg.format(forward_hdim))
         # end if
         self.__v2_hloop = self.__is_horizontal_loop_dimension(reverse_hdim)
-        if ((not self.__v2_hloop) and
+        if ((reverse_hdim_index >= 0) and (not self.__v2_hloop) and
             (not ("horizontal_dimension" in reverse_hdim))):
             emsg = "Uncategorized reverse horizontal dimension, '{}'"
             raise ParseInternalError(emsg.format(reverse_hdim))
-- 
2.43.0


From 620255fea0d0c0773adab4d1e875f75f5989994f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:23 +0000
Subject: [PATCH 27/74] fix: dimensions of arguments matching a variable owned
 by the suite were not checked

---
 scripts/suite_objects.py | 38 +++++++++++++++++++++++++++++++++-----
 scripts/var_props.py     | 12 ++++++++++++
 2 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index b907960..3732e71 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -857,6 +857,7 @@ class SuiteObject(VarDictionary):
         var_vdim = var.has_vertical_dimension(dims=vdims)
         compat_obj = None
         dict_var = None
+        local_dims = None
         if var.get_prop_value('type') == 'ccpp_constituent_properties_t':
             if self.phase() == 'register':
                 found_var = True
@@ -884,6 +885,20 @@ class SuiteObject(VarDictionary):
             # Therefore, we have to use the declaration dimensions in the call.
             found_var = True
             new_vdims = dict_var.get_dimensions()
+            if vdims and (not var_vdim):
+                dict_vdim, vdim_ind = find_vertical_dimension(new_vdims)
+                if dict_vdim is not None:
+                    # <var> can only be matched inside a vertical loop
+                    local_dims = new_vdims[:vdim_ind] + new_vdims[vdim_ind+1:]
+                    vmatch = VarDictionary.loop_var_match(dict_vdim)
+                    vloop_name = ':'.join(vmatch.required_stdnames)
+                    if self.parent.find_variable(standard_name=vloop_name,
+                                                 any_scope=True) is None:
+                        missing_vert = vloop_name
+                        found_var = False
+                    # end if
+                # end if
+            # end if
         else:
             # Check dimensions
             dict_dims = dict_var.get_dimensions()
@@ -955,16 +970,29 @@ class SuiteObject(VarDictionary):
         # forward/reverse transforms to/from <var> and <dict_var>.
         if dict_var is not None:
             dict_var = self.parent.find_variable(source_var=var, any_scope=True)
-            compat_obj = var.compatible(dict_var, run_env)
-            # Array dimensions have been matched above
-            dims_ok = vdims and (compat_obj.incompat_reason == 'dimensions')
-            if not (compat_obj.compat or dims_ok):
+            if dict_var.source.ptype in _API_LOCAL_VAR_TYPES:
+                # The declared dimensions are used in the call
+                match_var = dict_var
+                if local_dims is not None:
+                    match_var = dict_var.clone({'dimensions':local_dims})
+                # end if
+                compat_obj = var.compatible(match_var, run_env)
+                dims_ok = False
+                compat_ok = compat_obj.compat and not compat_obj.has_permuted_dims
+            else:
+                compat_obj = var.compatible(dict_var, run_env)
+                # Array dimensions have been matched above
+                dims_ok = vdims and (compat_obj.incompat_reason == 'dimensions')
+                compat_ok = compat_obj.compat
+            # end if
+            if not (compat_ok or dims_ok):
                 emsg = "Scheme argument, {}{}, is incompatible with {}{}: {}"
                 raise CCPPError(emsg.format(var.get_prop_value('local_name'),
                                             context_string(var.context),
                                             dict_var.get_prop_value('local_name'),
                                             context_string(dict_var.context),
-                                            compat_obj.incompat_reason))
+                                            compat_obj.incompat_reason or
+                                            'order of dimensions'))
             # end if
         # end if
         return found_var, dict_var, var_vdim, new_vdims, missing_vert, compat_obj
diff --git a/scripts/var_props.py b/scripts/var_props.py
index 3e13ead..ac50019 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -374,6 +374,11 @@ class DimTransform:
             raise ParseInternalError(emsg.format(reverse_hdim))
         # end if
 
+    @property
+    def is_permutation(self):
+        """Return True if this object changes the order of the dimensions."""
+        return list(self.__forward_perm) != list(range(len(self.__forward_perm)))
+
     def forward_transform(self, var2_lname, indices,
                           adjust_hdim=None, flip_vdim=None):
         """Compute and return the LHS of the forward transform from "var1" to
@@ -1449,6 +1454,13 @@ class VarCompatObj:
         """
         return self.__dim_transforms is not None
 
+    @property
+    def has_permuted_dims(self):
+        """Return True if the two variables have the same dimensions in a
+        different order."""
+        return ((self.__dim_transforms is not None) and
+                self.__dim_transforms.is_permutation)
+
     @property
     def has_kind_transforms(self):
         """Return True if this object has the kind transformation.
-- 
2.43.0


From fc57c845e6521969e1dbf47bc826c87b96c4b75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:40 +0000
Subject: [PATCH 28/74] fix: suite variables could not be passed to a group
 that does not use their dimensions

---
 scripts/suite_objects.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 3732e71..f34375e 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1261,6 +1261,15 @@ class Scheme(SuiteObject):
                     if dict_var:
                         self.add_var_debug_check(dict_var)
                 # end if
+                # The dimensions of a suite variable are needed to pass it
+                if SuiteObject.is_suite_variable(dict_var):
+                    for dim in dict_var.get_dim_stdnames(include_constants=False):
+                        dim_var = self.find_variable(standard_name=dim)
+                        if dim_var:
+                            self.update_group_call_list_variable(dim_var)
+                        # end if
+                    # end for
+                # end if
                 if not self.has_vertical_dim:
                     self.__has_vertical_dimension = vert_dim is not None
                 # end if
-- 
2.43.0


From 0a9f54dbb35f14dcf092b085c15f60c7841e6331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:32 +0000
Subject: [PATCH 29/74] fix: continued Fortran lines without a leading
 ampersand or with blanks before the trailing one were joined into one token

---
 scripts/fortran_tools/parse_fortran_file.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index 9bc39ef..a423561 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -409,6 +409,7 @@ def read_file(filename, preproc_defs=None, logger=None):
                 prev_line = None
             # End if
         else:
+            in_char = in_schar or in_dchar
             res = scan_free_line(curr_line, (continue_col >= 0),
                                  in_schar, in_dchar, pobj)
             cont_in_col, cont_out_col, in_schar, in_dchar, comment_col = res
@@ -431,6 +432,10 @@ def read_file(filename, preproc_defs=None, logger=None):
             else:
                 eindex = len(curr_line)
             # End if
+            if (not fixed_form) and (cont_in_col < 0) and (not in_char):
+                # Without a leading ampersand, the line break separates tokens
+                prev_line = prev_line + " "
+            # End if
             prev_line = prev_line + curr_line[sindex:eindex]
             if fixed_form:
                 prev_line = prev_line.rstrip()
@@ -447,10 +452,8 @@ def read_file(filename, preproc_defs=None, logger=None):
         continue_col = cont_out_col
         if (continue_col >= 0) and (prev_line is None):
             # We need to set up prev_line as it is continued
+            # (any blanks before the ampersand are part of the statement)
             prev_line = curr_line[0:continue_col]
-            if not (in_schar or in_dchar):
-                prev_line = prev_line.rstrip()
-            # End if
             prev_line_num = curr_line_num
         # End if
         curr_line, curr_line_num = pobj.next_line()
-- 
2.43.0


From 67f79c8fe7049fee55233bec0480df48b328a2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:32 +0000
Subject: [PATCH 30/74] fix: blank statements between semicolons crashed the
 Fortran reader

---
 scripts/fortran_tools/parse_fortran_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index a423561..c2ac351 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -96,7 +96,7 @@ def line_statements(line):
             ind_end = line_len - 1
         elif line[ind_end] == ';':
             # The whole reason for this routine, the statement separator
-            if ind_end > ind_start:
+            if line[ind_start:ind_end].strip():
                 statements.append(line[ind_start:ind_end])
             # End if
             ind_start = ind_end + 1
@@ -105,7 +105,7 @@ def line_statements(line):
         ind_end = ind_end + 1
     # End while
     # Cleanup
-    if ind_end > ind_start:
+    if line[ind_start:ind_end].strip():
         statements.append(line[ind_start:ind_end])
     # End if
     return statements
-- 
2.43.0


From ef1baf872ba493c9b50c06378d15fd131e6b3b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:14 +0000
Subject: [PATCH 31/74] fix: preprocessor conditions with !=, three or more
 operands, macro values or unspaced operators were misjudged

---
 scripts/parse_tools/preprocess.py | 44 ++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/scripts/parse_tools/preprocess.py b/scripts/parse_tools/preprocess.py
index 06b9414..24f1238 100755
--- a/scripts/parse_tools/preprocess.py
+++ b/scripts/parse_tools/preprocess.py
@@ -25,15 +25,29 @@ def preproc_bool(value):
     """Turn a preprocessor value into a boolean"""
     if isinstance(value, bool):
         line_val = value
+    else:
+        # Anything which is not an integer is an undefined symbol, i.e., 0
+        ival = preproc_int(value)
+        line_val = isinstance(ival, int) and (ival != 0)
+    # end if
+    return line_val
+
+########################################################################
+
+def preproc_int(value):
+    """Return the integer represented by a preprocessor value.
+    If <value> does not represent an integer, return <value>."""
+    if value is None:
+        # A symbol defined without a value (e.g., -DFOO) has the value 1
+        ival = 1
     else:
         try:
             ival = int(value)
-            line_val = ival != 0
         except ValueError:
-            line_val = value != "0"
+            ival = value
         # end try
     # end if
-    return line_val
+    return ival
 
 ########################################################################
 
@@ -66,31 +80,32 @@ def preproc_item_value(item, preproc_defs):
             raise PreprocError("Cannot parse function {}".format(func))
         # end if
     elif isinstance(item, ast.BoolOp):
-        left_val = preproc_item_value(item.values[0], preproc_defs)
-        right_val = preproc_item_value(item.values[1], preproc_defs)
+        vals = [preproc_bool(preproc_item_value(x, preproc_defs))
+                for x in item.values]
         oper = item.op
         if isinstance(oper, ast.And):
-            value = preproc_bool(left_val) and preproc_bool(right_val)
+            value = all(vals)
         elif isinstance(oper, ast.Or):
-            value = preproc_bool(left_val) or preproc_bool(right_val)
+            value = any(vals)
         else:
             raise PreprocError("Unknown binary operator, {}".format(oper))
         # end if
     elif isinstance(item, ast.UnaryOp):
         val = preproc_item_value(item.operand, preproc_defs)
         oper = item.op
-        if isinstance(oper, ast.Not):
+        if isinstance(oper, (ast.Not, ast.Invert)):
+            # '!' is passed as '~', the operator with the same precedence
             value = not preproc_bool(val)
         else:
             raise PreprocError("Unknown unary operator, {}".format(oper))
         # end if
     elif isinstance(item, ast.Compare):
-        left_val = preproc_item_value(item.left, preproc_defs)
+        left_val = preproc_int(preproc_item_value(item.left, preproc_defs))
         value = True
         for index in range(len(item.ops)):
             oper = item.ops[index]
             rcomp = item.comparators[index]
-            right_val = preproc_item_value(rcomp, preproc_defs)
+            right_val = preproc_int(preproc_item_value(rcomp, preproc_defs))
             if isinstance(oper, ast.Eq):
                 value = value and (left_val == right_val)
             elif isinstance(oper, ast.NotEq):
@@ -153,13 +168,16 @@ def parse_preproc_line(line, preproc_defs):
             # In character context, just copy current character
             pline = pline + line[index]
         elif line[index:index+2] == '&&':
-            pline = pline + 'and'
+            pline = pline + ' and '
             index = index + 1
         elif line[index:index+2] == '||':
-            pline = pline + 'or'
+            pline = pline + ' or '
+            index = index + 1
+        elif line[index:index+2] == '!=':
+            pline = pline + '!='
             index = index + 1
         elif line[index] == '!':
-            pline = pline + "not"
+            pline = pline + '~'
         else:
             match = __defined_re__.match(line[index:])
             if match is None:
-- 
2.43.0


From f87e8a368e75702842904663977ea4129016b75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:14 +0000
Subject: [PATCH 32/74] fix: #if and #elif directly followed by a parenthesis,
 and #ifdef followed by a comment, were misread

---
 scripts/parse_tools/preprocess.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scripts/parse_tools/preprocess.py b/scripts/parse_tools/preprocess.py
index 24f1238..2b3ffe0 100755
--- a/scripts/parse_tools/preprocess.py
+++ b/scripts/parse_tools/preprocess.py
@@ -213,11 +213,11 @@ def parse_preproc_line(line, preproc_defs):
 class PreprocStack(object):
     """Class to handle preprocess regions"""
 
-    ifdef_re = re.compile(r"#\s*ifdef\s+(.*)")
-    ifndef_re = re.compile(r"#\s*ifndef\s+(.*)")
-    if_re = re.compile(r"#\s*if([^dn].*)")
-    elif_re = re.compile(r"#\s*elif\s(.*)")
-    ifelif_re = re.compile(r"#\s*(?:el)?if\s(.*)")
+    ifdef_re = re.compile(r"#\s*ifdef\s+([A-Za-z0-9_]+)")
+    ifndef_re = re.compile(r"#\s*ifndef\s+([A-Za-z0-9_]+)")
+    if_re = re.compile(r"#\s*if([^A-Za-z0-9_].*)")
+    elif_re = re.compile(r"#\s*elif([^A-Za-z0-9_].*)")
+    ifelif_re = re.compile(r"#\s*(?:el)?if([^A-Za-z0-9_].*)")
     else_re = re.compile(r"#\s*else")
     end_re = re.compile(r"#\s*endif")
     define_re = re.compile(r"#\s*define\s+([A-Za-z0-9_]+)\s+([^\s]*)")
-- 
2.43.0


From 0f4fb3e6343e10b73ab390cda0ee80bfbe06df03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:14 +0000
Subject: [PATCH 33/74] fix: #define without a value was ignored and
 definitions leaked into the files read later

---
 scripts/fortran_tools/parse_fortran_file.py | 4 ++++
 scripts/parse_tools/preprocess.py           | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index c2ac351..89ad25a 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -347,6 +347,10 @@ def read_file(filename, preproc_defs=None, logger=None):
     Remvoved code results in blank lines, not removed lines
     """
     preproc_status = PreprocStack()
+    if preproc_defs is not None:
+        # Symbols (un)defined in this file must not affect other files
+        preproc_defs = dict(preproc_defs)
+    # end if
     if not os.path.exists(filename):
         raise IOError("read_file: file, '{}', does not exist".format(filename))
     # end if
diff --git a/scripts/parse_tools/preprocess.py b/scripts/parse_tools/preprocess.py
index 2b3ffe0..1c81984 100755
--- a/scripts/parse_tools/preprocess.py
+++ b/scripts/parse_tools/preprocess.py
@@ -220,7 +220,7 @@ class PreprocStack(object):
     ifelif_re = re.compile(r"#\s*(?:el)?if([^A-Za-z0-9_].*)")
     else_re = re.compile(r"#\s*else")
     end_re = re.compile(r"#\s*endif")
-    define_re = re.compile(r"#\s*define\s+([A-Za-z0-9_]+)\s+([^\s]*)")
+    define_re = re.compile(r"#\s*define\s+([A-Za-z0-9_]+)(?:\s+([^\s]*))?")
     undef_re = re.compile(r"#\s*undef\s+([A-Za-z0-9_]+)")
 
     def __init__(self):
-- 
2.43.0


From 4d09d06a09f23302bea6872781529ba4ac662c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:39 +0000
Subject: [PATCH 34/74] fix: #else after a taken #elif was kept, and malformed
 nesting of conditionals crashed or went unnoticed

---
 scripts/fortran_tools/parse_fortran_file.py |  1 +
 scripts/parse_tools/preprocess.py           | 29 +++++++++++++++------
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index 89ad25a..9abd0fe 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -462,6 +462,7 @@ def read_file(filename, preproc_defs=None, logger=None):
         # End if
         curr_line, curr_line_num = pobj.next_line()
     # End while
+    preproc_status.check_regions_closed(pobj)
     return pobj
 
 ########################################################################
diff --git a/scripts/parse_tools/preprocess.py b/scripts/parse_tools/preprocess.py
index 1c81984..437cc9c 100755
--- a/scripts/parse_tools/preprocess.py
+++ b/scripts/parse_tools/preprocess.py
@@ -350,7 +350,7 @@ class PreprocStack(object):
                 if match is not None:
                     line_val, success = self.process_if_line(sline,
                                                              preproc_defs)
-                    self.modify_region(line_val)
+                    self.modify_region(line_val, pobj)
                     if (not success) and (logger is not None):
                         lmsg = "WARNING: Preprocessor #elif statement not handled, at {}"
                         logger.warning(lmsg.format(pobj))
@@ -362,7 +362,7 @@ class PreprocStack(object):
                 if match is not None:
                     # Always try to use True for else, modify_region will set
                     # correct value
-                    self.modify_region(True)
+                    self.modify_region(True, pobj, is_else=True)
                 # end if
             # end if
             if match is None:
@@ -392,7 +392,7 @@ class PreprocStack(object):
     def enter_region(self, valid):
         """Enter a new region (if, ifdef, ifndef) which may
         currently be valid"""
-        self._region_stack.append([valid, valid])
+        self._region_stack.append([valid, valid, False])
 
     def exit_region(self, pobj):
         """Leave the current (innermost) region"""
@@ -402,18 +402,31 @@ class PreprocStack(object):
         # end if
         self._region_stack.pop()
 
-    def modify_region(self, valid):
+    def check_regions_closed(self, pobj):
+        """Raise an exception if a region is still open (at the end of a file)"""
+        if self._region_stack:
+            emsg = "#if, #ifdef, or #ifndef found with no matching #endif"
+            raise ParseSyntaxError(emsg, context=pobj)
+        # end if
+
+    def modify_region(self, valid, pobj, is_else=False):
         """Possibly modify the current (innermost) region.
         A region can be modified from False to True.
         Any attempt to modify a region which has been True results in False
         because after a region has been True, any #elif or #else must skipped.
+        Nothing but #endif is allowed after #else.
         """
+        if not self._region_stack:
+            emsg = "#elif or #else found with no matching #if, #ifdef, or #ifndef"
+            raise ParseSyntaxError(emsg, context=pobj)
+        # end if
         curr_region = self._region_stack.pop()
-        if curr_region[0]:
-            self._region_stack.append([curr_region[0], False])
-        else:
-            self._region_stack.append([curr_region[0], valid])
+        if curr_region[2]:
+            emsg = "#elif or #else found after #else"
+            raise ParseSyntaxError(emsg, context=pobj)
         # end if
+        now_valid = valid and (not curr_region[0])
+        self._region_stack.append([curr_region[0] or valid, now_valid, is_else])
 
     def in_true_region(self):
         """Return True iff the current line should be processed"""
-- 
2.43.0


From 36db85c797139db6e8caae42f4920d0637b41e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:17 +0000
Subject: [PATCH 35/74] fix: wrapping long lines lost code before a comment,
 split names and altered character literals

---
 scripts/fortran_tools/fortran_write.py | 112 +++++++++++++------------
 1 file changed, 59 insertions(+), 53 deletions(-)

diff --git a/scripts/fortran_tools/fortran_write.py b/scripts/fortran_tools/fortran_write.py
index 5b186c1..9a07454 100644
--- a/scripts/fortran_tools/fortran_write.py
+++ b/scripts/fortran_tools/fortran_write.py
@@ -82,51 +82,52 @@ end module {module}'''
         else:
             best = max(possible)
         # End if
-        if (best > self.__line_max) and (last < self.__line_max):
-            best = self.find_best_break(choices, last=self.__line_max)
+        if (best > self.__line_max) and (last < self.__line_max - 1):
+            # Leave room for the continuation character
+            best = self.find_best_break(choices, last=self.__line_max-1)
         # End if
         return best
 
     ###########################################################################
 
     @staticmethod
-    def _in_quote(test_str):
-        """Return True if <test_str> ends in a character context.
+    def _in_quote(test_str, quote=None):
+        """Return the active quote character if <test_str> ends in a character
+        context, otherwise, return None.
+        If <quote> is present, <test_str> begins in that character context.
         >>> FortranWriter._in_quote("hi'mom")
-        True
+        "'"
         >>> FortranWriter._in_quote("hi mom")
-        False
+
         >>> FortranWriter._in_quote("'hi mom'")
-        False
+
         >>> FortranWriter._in_quote("'hi"" mom'")
-        False
+
+        >>> FortranWriter._in_quote("hi mom' // 'hi", quote="'")
+        "'"
+        >>> FortranWriter._in_quote('hi "mom', quote="'")
+        "'"
         """
-        in_single_char = False
-        in_double_char = False
         for char in test_str:
-            if in_single_char:
-                if char == "'":
-                    in_single_char = False
+            if quote:
+                if char == quote:
+                    quote = None
                 # end if
-            elif in_double_char:
-                if char == '"':
-                    in_double_char = False
-                # end if
-            elif char == "'":
-                in_single_char = True
-            elif char == '"':
-                in_double_char = True
+            elif char in ("'", '"'):
+                quote = char
             # end if
         # end for
-        return in_single_char or in_double_char
+        return quote
 
     ###########################################################################
 
-    def write(self, statement, indent_level, continue_line=False):
+    def write(self, statement, indent_level, continue_line=False, quote=None):
         """Write <statement> to the open file, indenting to <indent_level>
         (see self.indent).
         If <continue_line> is True, treat this line as a continuation of
-        a previous statement."""
+        a previous statement.
+        If <quote> is present, <statement> (after its continuation character)
+        begins in a character context delimited by <quote>."""
         if isinstance(statement, list):
             for stmt in statement:
                 self.write(stmt, indent_level, continue_line)
@@ -152,24 +153,29 @@ end module {module}'''
                 # Collect pretty break points
                 spaces = list()
                 commas = list()
-                sptr = len(istr)
-                in_single_char = False
-                in_double_char = False
+                if ostmt[0] == '&':
+                    sptr = 1
+                else:
+                    sptr = len(istr)
+                # end if
+                curr_quote = quote
                 while sptr < line_len:
-                    if in_single_char:
-                        if outstr[sptr] == "'":
-                            in_single_char = False
+                    if curr_quote:
+                        if outstr[sptr] == curr_quote:
+                            curr_quote = None
                         # End if (no else, just copy stuff in string)
-                    elif in_double_char:
-                        if outstr[sptr] == '"':
-                            in_double_char = False
-                        # End if (no else, just copy stuff in string)
-                    elif outstr[sptr] == "'":
-                        in_single_char = True
-                    elif outstr[sptr] == '"':
-                        in_double_char = True
+                    elif outstr[sptr] in ("'", '"'):
+                        curr_quote = outstr[sptr]
                     elif outstr[sptr] == '!':
                         # Comment in non-character context
+                        if ((not is_comment_stmt) and (not in_comment) and
+                            (len(outstr[0:sptr].rstrip()) >= self.__line_fill)):
+                            # The code has to be broken, write it separately
+                            self.write(outstr[0:sptr].rstrip(), indent_level,
+                                       continue_line=continue_line, quote=quote)
+                            self.write(outstr[sptr:], indent_level)
+                            return
+                        # end if
                         spaces.append(sptr-1)
                         in_comment = "! " # No continue for comment
                         if ((not is_comment_stmt) and
@@ -193,9 +199,8 @@ end module {module}'''
                 #    comment line but before any significant characters
                 if outstr.lstrip().startswith('!'):
                     first_space = outstr.index('!') + 1
-                    while ((outstr[first_space] == '!' or
-                            outstr[first_space] == ' ') and
-                           (first_space < line_len)):
+                    while ((first_space < line_len) and
+                           (outstr[first_space] in ('!', ' '))):
                         first_space += 1
                     # end while
                     if min(spaces) < first_space:
@@ -210,22 +215,22 @@ end module {module}'''
                     # This is probably a bad situation so we have to break
                     #   in an ugly spot
                     best = self.__line_max - 1
-                    if len(outstr) > best:
+                    if (line_len > best + 1) and (not in_comment):
+                        # Leave room for the continuation character
+                        best = best - 1
                         line_continue = '&'
                     # end if
+                elif line_len > best + 1:
+                    line_continue = not in_comment
                 # end if
-                if len(outstr) > best:
-                    if self._in_quote(outstr[0:best+1]):
-                        line_continue = '&'
+                next_quote = None
+                if line_continue:
+                    if ostmt[0] == '&':
+                        first = 1
                     else:
-                        # If next line is just comment, do not use continue
-                        line_continue = outstr[best+1:].lstrip()[0] != '!'
+                        first = len(istr)
                     # end if
-                elif not line_continue:
-                    line_continue = len(outstr) > best
-                # End if
-                if in_comment or is_comment_stmt:
-                    line_continue = False
+                    next_quote = self._in_quote(outstr[first:best+1], quote)
                 # end if
                 if line_continue:
                     fill = "{}&".format((self.__line_fill - best)*' ')
@@ -242,7 +247,8 @@ end module {module}'''
                 if isinstance(line_continue, str) and statement:
                     statement = line_continue + statement
                 # end if
-                self.write(statement, indent_level, continue_line=line_continue)
+                self.write(statement, indent_level, quote=next_quote,
+                           continue_line=line_continue)
             else:
                 self.__file.write("{}\n".format(outstr))
             # End if
-- 
2.43.0


From 001189c29c59dccd80c321bb6ba59bc60f09a893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:15 +0000
Subject: [PATCH 36/74] fix: a line broken before a blank could leave a line
 with nothing but continuation characters

---
 scripts/fortran_tools/fortran_write.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/fortran_tools/fortran_write.py b/scripts/fortran_tools/fortran_write.py
index 9a07454..ba2d1e0 100644
--- a/scripts/fortran_tools/fortran_write.py
+++ b/scripts/fortran_tools/fortran_write.py
@@ -231,6 +231,10 @@ end module {module}'''
                         first = len(istr)
                     # end if
                     next_quote = self._in_quote(outstr[first:best+1], quote)
+                    if (not next_quote) and (outstr[best+1] == ' '):
+                        # Not in the middle of a token
+                        line_continue = True
+                    # end if
                 # end if
                 if line_continue:
                     fill = "{}&".format((self.__line_fill - best)*' ')
-- 
2.43.0


From 64dc45b2709036db26eab2a3a1a5bc84dcd932cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:56 +0000
Subject: [PATCH 37/74] fix: the intent of a group argument ignored that the
 group itself reads it

---
 scripts/suite_objects.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index f34375e..1e5f057 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1185,8 +1185,10 @@ class Scheme(SuiteObject):
         self.__optional_vars = list()
         super().__init__(name, context, parent, run_env, active_call_list=True)
 
-    def update_group_call_list_variable(self, var):
+    def update_group_call_list_variable(self, var, read_only=False):
         """If <var> is in our group's call list, update its intent.
+        If <read_only> is True, the group itself reads <var> (e.g., as a
+        dimension or in a condition) whatever the intent of <var>.
         Add <var> to our group's call list unless:
         - <var> is in our group's call list
         - <var> is in our group's dictionary,
@@ -1196,6 +1198,9 @@ class Scheme(SuiteObject):
         gvar = my_group.call_list.find_variable(standard_name=stdname,
                                                 any_scope=False)
         if gvar:
+            if read_only:
+                var = var.clone({'intent' : 'in'})
+            # end if
             gvar.adjust_intent(var)
         else:
             gvar = my_group.find_variable(standard_name=stdname,
@@ -1266,7 +1271,8 @@ class Scheme(SuiteObject):
                     for dim in dict_var.get_dim_stdnames(include_constants=False):
                         dim_var = self.find_variable(standard_name=dim)
                         if dim_var:
-                            self.update_group_call_list_variable(dim_var)
+                            self.update_group_call_list_variable(dim_var,
+                                                                 read_only=True)
                         # end if
                     # end for
                 # end if
@@ -1340,7 +1346,8 @@ class Scheme(SuiteObject):
                 if dict_var:
                     conditional = dict_var.conditional(self.conditional_dicts())
                     for var_needed in conditional[1]:
-                        self.update_group_call_list_variable(var_needed)
+                        self.update_group_call_list_variable(var_needed,
+                                                             read_only=True)
                     # end for
                 # end if
             # end if
@@ -1384,7 +1391,8 @@ class Scheme(SuiteObject):
         else:
             (_, vars_needed) = var.conditional(var_dicts)
             for var_needed in vars_needed:
-                self.update_group_call_list_variable(var_needed)
+                self.update_group_call_list_variable(var_needed,
+                                                     read_only=True)
 
         # For scalars and arrays, need an internal_var variable (same kind and type)
         # that we can assign the scalar or the lbound/ubound of the array to.
@@ -1422,17 +1430,20 @@ class Scheme(SuiteObject):
                     dim_var = self.find_variable(standard_name=dim)
                     if not dim_var:
                         raise Exception(f"No dimension with standard name '{dim}'")
-                    self.update_group_call_list_variable(dim_var)
+                    self.update_group_call_list_variable(dim_var,
+                                                         read_only=True)
                 else:
                     (ldim, udim) = dim.split(":")
                     ldim_var = self.find_variable(standard_name=ldim)
                     if not ldim_var:
                         raise Exception(f"No dimension with standard name '{ldim}'")
-                    self.update_group_call_list_variable(ldim_var)
+                    self.update_group_call_list_variable(ldim_var,
+                                                         read_only=True)
                     udim_var = self.find_variable(standard_name=udim)
                     if not udim_var:
                         raise Exception(f"No dimension with standard name '{udim}'")
-                    self.update_group_call_list_variable(udim_var)
+                    self.update_group_call_list_variable(udim_var,
+                                                         read_only=True)
 
         # Add the variable to the list of variables to check. Record which internal_var to use.
         self.__var_debug_checks.append([var, internal_var])
-- 
2.43.0


From 00782982a852d90eabc2ce4b40e995b37e7d4880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:49 +0000
Subject: [PATCH 38/74] fix: activity conditions lost operators such as a minus
 sign and upper case logical operators

---
 scripts/common.py                          | 6 ++++--
 scripts/parse_tools/fortran_conditional.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/scripts/common.py b/scripts/common.py
index f5ba7f1..6f82969 100755
--- a/scripts/common.py
+++ b/scripts/common.py
@@ -40,8 +40,10 @@ CCPP_HORIZONTAL_DIMENSION   = 'horizontal_dimension'
 
 FORTRAN_CONDITIONAL_REGEX_WORDS = [' ', '(', ')', '==', '/=', '<=', '>=', '<', '>', '.eqv.', '.neqv.',
                                    '.true.', '.false.', '.lt.', '.le.', '.eq.', '.ge.', '.gt.', '.ne.',
-                                   '.not.', '.and.', '.or.', '.xor.']
-FORTRAN_CONDITIONAL_REGEX = re.compile(r"[\w']+|" + "|".join([word.replace('(','\(').replace(')', '\)') for word in FORTRAN_CONDITIONAL_REGEX_WORDS]))
+                                   '.not.', '.and.', '.or.', '.xor.',
+                                   '+', '-', '*', '/', '.', '\t']
+# Any other character is an item of its own so that nothing is skipped
+FORTRAN_CONDITIONAL_REGEX = re.compile(r"[\w']+|" + "|".join([re.escape(word) for word in FORTRAN_CONDITIONAL_REGEX_WORDS]) + r"|.", flags=re.IGNORECASE)
 
 CCPP_TYPE = 'ccpp_t'
 
diff --git a/scripts/parse_tools/fortran_conditional.py b/scripts/parse_tools/fortran_conditional.py
index b1ec7ee..a83c33e 100755
--- a/scripts/parse_tools/fortran_conditional.py
+++ b/scripts/parse_tools/fortran_conditional.py
@@ -9,5 +9,7 @@ import re
 
 FORTRAN_CONDITIONAL_REGEX_WORDS = [' ', '(', ')', '==', '/=', '<=', '>=', '<', '>', '.eqv.', '.neqv.',
                                    '.true.', '.false.', '.lt.', '.le.', '.eq.', '.ge.', '.gt.', '.ne.',
-                                   '.not.', '.and.', '.or.', '.xor.']
-FORTRAN_CONDITIONAL_REGEX = re.compile(r"[\w']+|" + "|".join([word.replace('(','\(').replace(')', '\)') for word in FORTRAN_CONDITIONAL_REGEX_WORDS]))
+                                   '.not.', '.and.', '.or.', '.xor.',
+                                   '+', '-', '*', '/', '.', '\t']
+# Any other character is an item of its own so that nothing is skipped
+FORTRAN_CONDITIONAL_REGEX = re.compile(r"[\w']+|" + "|".join([re.escape(word) for word in FORTRAN_CONDITIONAL_REGEX_WORDS]) + r"|.", flags=re.IGNORECASE)
-- 
2.43.0


From 91f62b143d22dd5deea66f075edddc062be06e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:48 +0000
Subject: [PATCH 39/74] fix: regenerated files were dropped when their contents
 had changed

---
 scripts/file_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/file_utils.py b/scripts/file_utils.py
index 669922b..dd89168 100644
--- a/scripts/file_utils.py
+++ b/scripts/file_utils.py
@@ -289,7 +289,7 @@ def move_modified_files(src_dir, dest_dir, overwrite=False, remove_src=False):
                 if overwrite:
                     fmove = True
                 else:
-                    fmove = filecmp.cmp(src_path, dest_path, shallow=False)
+                    fmove = not filecmp.cmp(src_path, dest_path, shallow=False)
                 # end if
             else:
                 fmove = True
-- 
2.43.0


From 21ca3d05073f9478247784ae657db1fc54c37a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:10 +0000
Subject: [PATCH 40/74] fix: a prebuild file could stay out of date when its
 size and time stamp, or the makefile next to it, had not changed

---
 scripts/ccpp_prebuild.py | 12 ++++++------
 scripts/mkstatic.py      |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index b8829b6..c8f9a29 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -629,8 +629,8 @@ def generate_typedefs_makefile(metadata_define, typedefs_makefile, typedefs_cmak
     makefile.write(typedefs)
     cmakefile.write(typedefs)
     sourcefile.write(typedefs)
-    if os.path.isfile(typedefs_makefile) and \
-            filecmp.cmp(typedefs_makefile, makefile.filename):
+    if all(os.path.isfile(f) and filecmp.cmp(f, f + '.tmp', shallow=False)
+           for f in (typedefs_makefile, typedefs_cmakefile, typedefs_sourcefile)):
         os.remove(makefile.filename)
         os.remove(cmakefile.filename)
         os.remove(sourcefile.filename)
@@ -666,8 +666,8 @@ def generate_schemes_makefile(schemes, schemes_makefile, schemes_cmakefile, sche
     makefile.write(schemes_with_abspath)
     cmakefile.write(schemes_with_abspath)
     sourcefile.write(schemes_with_abspath)
-    if os.path.isfile(schemes_makefile) and \
-            filecmp.cmp(schemes_makefile, makefile.filename):
+    if all(os.path.isfile(f) and filecmp.cmp(f, f + '.tmp', shallow=False)
+           for f in (schemes_makefile, schemes_cmakefile, schemes_sourcefile)):
         os.remove(makefile.filename)
         os.remove(cmakefile.filename)
         os.remove(sourcefile.filename)
@@ -703,8 +703,8 @@ def generate_caps_makefile(caps, caps_makefile, caps_cmakefile, caps_sourcefile,
     makefile.write(caps_with_abspath)
     cmakefile.write(caps_with_abspath)
     sourcefile.write(caps_with_abspath)
-    if os.path.isfile(caps_makefile) and \
-            filecmp.cmp(caps_makefile, makefile.filename):
+    if all(os.path.isfile(f) and filecmp.cmp(f, f + '.tmp', shallow=False)
+           for f in (caps_makefile, caps_cmakefile, caps_sourcefile)):
         os.remove(makefile.filename)
         os.remove(cmakefile.filename)
         os.remove(sourcefile.filename)
diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 618d3a8..8c90563 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -509,7 +509,7 @@ end module {module}
             f.close()
             # See comment above on updating the API or not
             if write_to_test_file:
-                if filecmp.cmp(self.filename, test_filename):
+                if filecmp.cmp(self.filename, test_filename, shallow=False):
                     # Files are equal, delete the test API and set update flag to False
                     os.remove(test_filename)
                     self.update_api = False
@@ -568,7 +568,7 @@ set(API \"{filename}\")
         f.close()
         # See comment above on updating the API or not
         if write_to_test_file:
-            if filecmp.cmp(source_filename, test_filename):
+            if filecmp.cmp(source_filename, test_filename, shallow=False):
                 # Files are equal, delete the test file
                 os.remove(test_filename)
             else:
@@ -918,7 +918,7 @@ end module {module}
             f.close()
             # See comment above on updating the suite cap or not
             if write_to_test_file:
-                if filecmp.cmp(self.filename, test_filename):
+                if filecmp.cmp(self.filename, test_filename, shallow=False):
                     # Files are equal, delete the test cap
                     # and set update flag to False
                     os.remove(test_filename)
@@ -1975,7 +1975,7 @@ end module {module}
             f.close()
             # See comment above on updating the group cap or not
             if write_to_test_file:
-                if filecmp.cmp(self.filename, test_filename):
+                if filecmp.cmp(self.filename, test_filename, shallow=False):
                     # Files are equal, delete the test cap
                     # and set update flag to False
                     os.remove(test_filename)
-- 
2.43.0


From 4ed46c24ded56aecf1b9cc79eb896b92642857e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:07 +0000
Subject: [PATCH 41/74] fix: prebuild unit conversions of arrays produced
 invalid code for formulas that do not end with the variable

---
 scripts/mkstatic.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 8c90563..ae266cc 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1750,10 +1750,9 @@ end module {module}
                                 actions_in += f'        allocate({tmpvar.local_name}{dim_string_allocate})\n'
                             if var.actions['in']:
                                 # Add unit conversion before entering the subroutine
-                                actions_in += '        {t} = {c}{d}\n'.format(t=tmpvar.local_name,
-                                                                              c=var.actions['in'].format(var=tmpvar.target.replace(dim_string_target_name, ''),
-                                                                                                         kind=kind_string),
-                                                                              d=dim_string)
+                                actions_in += '        {t} = {c}\n'.format(t=tmpvar.local_name,
+                                                                           c=var.actions['in'].format(var=tmpvar.target.replace(dim_string_target_name, '')+dim_string,
+                                                                                                      kind=kind_string))
                                 # If the variable is conditionally allocated, assign pointer
                                 if not conditional == '.true.':
                                     actions_in += '        {p} => {t}{d}\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p",
-- 
2.43.0


From d606c8883b8b72596ba2f7753c8856cf9b658895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:24 +0000
Subject: [PATCH 42/74] fix: prebuild caps destroyed the rest of a derived type
 when only an output component of it was used

---
 scripts/mkstatic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index ae266cc..641b0a3 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1295,9 +1295,13 @@ end module {module}
                                     # in var_local_name_define or the actual parent of that variable.
                                     if not parent_standard_name in self.parents[ccpp_stage].keys():
                                         self.parents[ccpp_stage][parent_standard_name] = copy.deepcopy(parent_var)
-                                        # Copy the intent of the actual variable being processed
+                                        # Copy the intent of the actual variable being processed. If that variable is only a part
+                                        # of its parent (component of a DDT, array slice), intent(out) would destroy the rest of it
                                         if local_name_define == parent_local_name_define:
-                                            self.parents[ccpp_stage][parent_standard_name].intent = var.intent
+                                            if var.intent == 'out' and not local_name_define == var_local_name_define:
+                                                self.parents[ccpp_stage][parent_standard_name].intent = 'inout'
+                                            else:
+                                                self.parents[ccpp_stage][parent_standard_name].intent = var.intent
                                         # It's an index for the actual variable being processed --> intent(in)
                                         else:
                                             self.parents[ccpp_stage][parent_standard_name].intent = 'in'
-- 
2.43.0


From 1044b28c3be27b78897c4e63d286a9d8b4396704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:24 +0000
Subject: [PATCH 43/74] fix: prebuild caps did not associate an optional
 intent(out) argument that needs a unit conversion

---
 scripts/mkstatic.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 641b0a3..1de9ed1 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1757,19 +1757,19 @@ end module {module}
                                 actions_in += '        {t} = {c}\n'.format(t=tmpvar.local_name,
                                                                            c=var.actions['in'].format(var=tmpvar.target.replace(dim_string_target_name, '')+dim_string,
                                                                                                       kind=kind_string))
-                                # If the variable is conditionally allocated, assign pointer
-                                if not conditional == '.true.':
-                                    actions_in += '        {p} => {t}{d}\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p",
-                                                                                   t=tmpvar.local_name, d=dim_string_allocate)
+                            # If the variable is conditionally allocated, assign pointer
+                            if not conditional == '.true.':
+                                actions_in += '        {p} => {t}{d}\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p",
+                                                                               t=tmpvar.local_name, d=dim_string_allocate)
                             if var.actions['out']:
                                 # Add unit conversion after returning from the subroutine
                                 actions_out  += '        {v}{d} = {c}\n'.format(v=tmpvar.target.replace(dim_string_target_name, ''),
                                                                                 d=dim_string,
                                                                                 c=var.actions['out'].format(var=tmpvar.local_name,
                                                                                                             kind=kind_string))
-                                # If the variable is conditionally allocated, nullify pointer
-                                if not conditional == '.true.':
-                                    actions_out += '        nullify({p})\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p")
+                            # If the variable is conditionally allocated, nullify pointer
+                            if not conditional == '.true.':
+                                actions_out += '        nullify({p})\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p")
 
                             if tmpvar.rank:
                                 # Add deallocate statement if the variable has a rank > 0
-- 
2.43.0


From 8909cf92d55fe2cc9c179df8712e833af1c2c2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:49 +0000
Subject: [PATCH 44/74] fix: the static API reported success for a group that
 refused to run because it was not initialized

---
 scripts/mkstatic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 1de9ed1..8ad7827 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1009,6 +1009,7 @@ end module {module}
       if (.not.initialized({ccpp_var_name}%ccpp_instance)) then
         write({target_name_msg},'(*(a))') '{name}_timestep_init called before {name}_init'
         {target_name_flag} = 1
+        ierr = {target_name_flag}
         return
       end if
 ''',
@@ -1016,6 +1017,7 @@ end module {module}
       if (.not.initialized({ccpp_var_name}%ccpp_instance)) then
         write({target_name_msg},'(*(a))') '{name}_run called before {name}_init'
         {target_name_flag} = 1
+        ierr = {target_name_flag}
         return
       end if
 ''',
@@ -1023,6 +1025,7 @@ end module {module}
       if (.not.initialized({ccpp_var_name}%ccpp_instance)) then
         write({target_name_msg},'(*(a))') '{name}_timestep_finalize called before {name}_init'
         {target_name_flag} = 1
+        ierr = {target_name_flag}
         return
       end if
 ''',
-- 
2.43.0


From 36061ed009a1cd33956f1b6c616998da3993db42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:49 +0000
Subject: [PATCH 45/74] fix: finalizing one model instance marked the other
 instances as not initialized

---
 scripts/mkstatic.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 8ad7827..8d15ad2 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1042,7 +1042,7 @@ end module {module}
         'run' : '',
         'timestep_finalize' : '',
         'finalize' : '''
-      initialized = .false.
+      initialized({ccpp_var_name}%ccpp_instance) = .false.
 ''',
     }
 
@@ -1905,11 +1905,11 @@ end module {module}
                 if subcycle_body:
                     body += subcycle_body_prefix + subcycle_body + subcycle_body_suffix
 
-            #For the init stage, for the case when the suite doesn't have any schemes with init phases,
-            #we still need to add the host-supplied ccpp_t variable to the init group caps so that it is
-            #available for setting the initialized flag for the particular instance being called. Otherwise,
-            #the initialized_set_block for the init phase tries to reference the unavailable ccpp_t variable.
-            if (ccpp_stage == 'init' and not self.parents[ccpp_stage]):
+            #For the init and finalize stages, for the case when the suite doesn't have any schemes with init/finalize
+            #phases, we still need to add the host-supplied ccpp_t variable to the init/finalize group caps so that it
+            #is available for (un)setting the initialized flag for the particular instance being called. Otherwise,
+            #the initialized_set_block for these phases tries to reference the unavailable ccpp_t variable.
+            if (ccpp_stage in ['init', 'finalize'] and not self.parents[ccpp_stage]):
                 ccpp_var.intent = 'in'
                 self.parents[ccpp_stage].update({ccpp_var.standard_name:ccpp_var})
 
-- 
2.43.0


From b89a9094d4c3c23e46ab0ae4de2ea6307ba4d52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:32 +0000
Subject: [PATCH 46/74] fix: a scheme could write to a host variable declared
 protected

---
 scripts/suite_objects.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 1e5f057..982957b 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -994,6 +994,15 @@ class SuiteObject(VarDictionary):
                                             compat_obj.incompat_reason or
                                             'order of dimensions'))
             # end if
+            vintent = var.get_prop_value('intent')
+            if dict_var.get_prop_value('protected') and (vintent != 'in'):
+                emsg = "Scheme argument, {}{}, is intent({}), only 'in' "
+                emsg += "allowed for 'protected' variable, {}{}"
+                raise CCPPError(emsg.format(var.get_prop_value('local_name'),
+                                            context_string(var.context), vintent,
+                                            dict_var.get_prop_value('local_name'),
+                                            context_string(dict_var.context)))
+            # end if
         # end if
         return found_var, dict_var, var_vdim, new_vdims, missing_vert, compat_obj
 
-- 
2.43.0


From db0546115050bf4c313fe60d9b783ff621d48f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:32 +0000
Subject: [PATCH 47/74] fix: the process list of the datatable repeated schemes
 used in several groups

---
 scripts/ccpp_datafile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/ccpp_datafile.py b/scripts/ccpp_datafile.py
index 6bb5e53..4eafffc 100755
--- a/scripts/ccpp_datafile.py
+++ b/scripts/ccpp_datafile.py
@@ -309,7 +309,8 @@ def _retrieve_process_list(table):
     ccpp_datafile.CCPPDatatableError: Could not find 'schemes' element
     """
 
-    result = list()
+    # A scheme has an entry for each place it is used
+    result = set()
     schemes = table.find("schemes")
     if schemes is None:
         raise CCPPDatatableError("Could not find 'schemes' element")
@@ -318,7 +319,7 @@ def _retrieve_process_list(table):
         name = scheme.get("name")
         proc = scheme.get("process")
         if proc:
-            result.append("{}={}".format(proc, name))
+            result.add("{}={}".format(proc, name))
         # end if
     # end for
     return sorted(result)
-- 
2.43.0


From 2be16a0f642d816a8f0871f025e89562f516457d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:52 +0000
Subject: [PATCH 48/74] fix: an optional argument was not compared in first
 place and crashed the comparison when it was not declared

---
 scripts/ccpp_capgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index 9eac0ec..e89dae5 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -320,7 +320,7 @@ def compare_fheader_to_mheader(meta_header, fort_header, logger):
             # missing from fortran declaration.
             # first check: if metadata says the variable is optional, does the fortran match?
             mopt  = mvar.get_prop_value('optional')
-            if find and mopt:
+            if (fvar is not None) and mopt:
                 fopt = fvar.get_prop_value('optional')
                 if (not fopt):
                     errmsg = f'Missing "optional" attribute in fortran declaration for variable {mname}, ' \
-- 
2.43.0


From 46cd7d2e6c0ea949410e4ea298d66db92122921c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:52 +0000
Subject: [PATCH 49/74] fix: variables listed after array references were not
 compared with their declaration

---
 scripts/ccpp_capgen.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index e89dae5..1fe1be1 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -340,14 +340,17 @@ def compare_fheader_to_mheader(meta_header, fort_header, logger):
             if mind >= flen:
                 if arrayref:
                     # Array reference, variable not in Fortran table
-                    pass
-                elif fvar is None:
+                    continue
+                # end if
+                if fvar is None:
                     errmsg = 'No Fortran variable for {} in {}'
                     errors_found = add_error(errors_found,
                                              errmsg.format(lname, title))
                 # end if (no else, we already reported an out-of-place error
                 # Do not break to collect all missing variables
-                continue
+                if (fvar is None) or (fht in _ORDERED_TABLE_TYPES):
+                    continue
+                # end if (no else, order is not significant, check variable)
             # end if
             # At this point, we should have a Fortran variable
             if (not arrayref) and (fvar is None):
-- 
2.43.0


From 9c1d10af547174ebe163017299e1dc9988ceac52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:52 +0000
Subject: [PATCH 50/74] fix: routine names that differ in case from the
 metadata were not found in the Fortran source

---
 scripts/ccpp_capgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index 1fe1be1..df793d9 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -414,7 +414,7 @@ def check_fortran_against_metadata(meta_headers, fort_headers,
         fheader = None
         mtitle = mheader.title
         for findex in range(len(fort_headers)): #pylint: disable=consider-using-enumerate
-            if fort_headers[findex].title == mtitle:
+            if fort_headers[findex].title.lower() == mtitle.lower():
                 fheader = fort_headers.pop(findex)
                 break
             # end if
-- 
2.43.0


From d16de5b383e0e7aecb65ee4e9b7d447c8421f544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:52 +0000
Subject: [PATCH 51/74] fix: a metadata table defined in two files crashed
 instead of being reported

---
 scripts/ccpp_capgen.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index df793d9..4abd1fc 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -463,8 +463,8 @@ def duplicate_item_error(title, filename, itype, orig_item):
     """Raise an error indicating a duplicate item of type, <itype>"""
     errmsg = "Duplicate {typ}, {title}, found in {file}"
     edict = {'title':title, 'file':filename, 'typ':itype}
-    ofile = orig_item.context.filename
-    if ofile is not None:
+    ofile = orig_item.start_context(with_comma=False, nodir=False)
+    if ofile:
         errmsg = errmsg + ", original found in {ofile}"
         edict['ofile'] = ofile
     # end if
@@ -502,7 +502,8 @@ def parse_host_model_files(host_filenames, host_name, run_env):
         for table in mtables:
             if table.table_name in table_dict:
                 duplicate_item_error(table.table_name, filename,
-                                     table.table_type, table_dict[header.title])
+                                     table.table_type,
+                                     table_dict[table.table_name])
             else:
                 table_dict[table.table_name] = table
             # end if
@@ -560,7 +561,8 @@ def parse_scheme_files(scheme_filenames, run_env, skip_ddt_check=False):
         for table in mtables:
             if table.table_name in table_dict:
                 duplicate_item_error(table.table_name, filename,
-                                     table.table_type, table_dict[header.title])
+                                     table.table_type,
+                                     table_dict[table.table_name])
             else:
                 table_dict[table.table_name] = table
             # end if
-- 
2.43.0


From 661bec77394fbb8c2d33992224af01c5fc7de9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:38 +0000
Subject: [PATCH 52/74] fix: a deallocated constituent kept its minimum value,
 molar mass and flags for its next instantiation

---
 src/ccpp_constituent_prop_mod.F90 | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index 1601957..f8b98e0 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -479,13 +479,20 @@ CONTAINS
       if (allocated(this%var_long_name)) then
          deallocate(this%var_long_name)
       end if
+      if (allocated(this%var_units)) then
+         deallocate(this%var_units)
+      end if
       if (allocated(this%vert_dim)) then
          deallocate(this%vert_dim)
       end if
       this%const_ind = int_unassigned
       this%advected = .false.
+      this%thermo_active = .false.
+      this%water_species = .false.
       this%const_type = int_unassigned
       this%const_water = int_unassigned
+      this%min_val = 0.0_kind_phys
+      this%molar_mass_val = kphys_unassigned
       this%const_default_value = kphys_unassigned
 
    end subroutine ccp_deallocate
-- 
2.43.0


From 9586c90ce7ad03e4883542e8600132f4442ff4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:38 +0000
Subject: [PATCH 53/74] fix: a reset constituent registry stayed locked,
 nothing could be added to it

---
 src/ccpp_constituent_prop_mod.F90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index f8b98e0..9e8af6f 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -1581,6 +1581,8 @@ CONTAINS
          this%num_layer_vars = 0
          this%num_advected_vars = 0
          this%num_layers = 0
+         this%table_locked = .false.
+         this%data_locked = .false.
          call this%hash_table%clear()
       end if
 
-- 
2.43.0


From 28a3f556be8d187a5a87ac0541a9ccc2d8016279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:38 +0000
Subject: [PATCH 54/74] fix: constituent routines added to error codes that had
 not been set

---
 src/ccpp_constituent_prop_mod.F90 | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index 9e8af6f..f9d18ad 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -1168,6 +1168,7 @@ CONTAINS
       ! Local variable
       character(len=*), parameter :: subname = 'ccp_model_const_okay_to_add'
 
+      call initialize_errvars(errcode, errmsg)
       ccp_model_const_okay_to_add = this%hash_table%is_initialized()
       if (ccp_model_const_okay_to_add) then
          ccp_model_const_okay_to_add = .not. (this%const_props_locked(errcode=errcode,     &
@@ -1967,6 +1968,7 @@ CONTAINS
          call this%prop%standard_name(std_name, errcode, errmsg)
       else
          std_name = ''
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -1990,6 +1992,7 @@ CONTAINS
          call this%prop%long_name(long_name, errcode, errmsg)
       else
          long_name = ''
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2013,6 +2016,7 @@ CONTAINS
          call this%prop%units(units, errcode, errmsg)
       else
          units = ''
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2038,6 +2042,7 @@ CONTAINS
          end if
       else
          vert_dim = ''
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2121,6 +2126,7 @@ CONTAINS
          index = this%prop%const_index(errcode, errmsg)
       else
          index = int_unassigned
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2143,6 +2149,7 @@ CONTAINS
          call this%prop%is_thermo_active(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2165,6 +2172,7 @@ CONTAINS
          call this%prop%is_water_species(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2187,6 +2195,7 @@ CONTAINS
          call this%prop%is_advected(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2209,6 +2218,7 @@ CONTAINS
          call this%prop%is_mass_mixing_ratio(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2231,6 +2241,7 @@ CONTAINS
          call this%prop%is_volume_mixing_ratio(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2253,6 +2264,7 @@ CONTAINS
          call this%prop%is_number_concentration(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2275,6 +2287,7 @@ CONTAINS
          call this%prop%is_dry(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2297,6 +2310,7 @@ CONTAINS
          call this%prop%is_moist(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2319,6 +2333,7 @@ CONTAINS
          call this%prop%is_wet(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2341,6 +2356,7 @@ CONTAINS
          call this%prop%minimum(val_out, errcode, errmsg)
       else
          val_out = kphys_unassigned
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2366,6 +2382,7 @@ CONTAINS
       if (associated(this%prop)) then
          call this%prop%set_minimum(min_value, errcode, errmsg)
       else
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2388,6 +2405,7 @@ CONTAINS
          call this%prop%molar_mass(val_out, errcode, errmsg)
       else
          val_out = kphys_unassigned
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2409,6 +2427,7 @@ CONTAINS
       if (associated(this%prop)) then
          call this%prop%set_molar_mass(molar_mass, errcode, errmsg)
       else
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2431,6 +2450,7 @@ CONTAINS
          call this%prop%default_value(val_out, errcode, errmsg)
       else
          val_out = kphys_unassigned
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2453,6 +2473,7 @@ CONTAINS
          call this%prop%has_default(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",      &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2532,6 +2553,7 @@ CONTAINS
             end if
          end if
       else
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",         &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2558,6 +2580,7 @@ CONTAINS
             this%prop%thermo_active = thermo_flag
          end if
       else
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",         &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2584,6 +2607,7 @@ CONTAINS
             this%prop%water_species = water_flag
          end if
       else
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
-- 
2.43.0


From 50df9b3152fed4bc907f06e576db68c951610a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:12 +0000
Subject: [PATCH 55/74] fix: the generated constituent index lookup did not
 report an unknown name as it documents

---
 scripts/constituents.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scripts/constituents.py b/scripts/constituents.py
index a8c1114..5582601 100644
--- a/scripts/constituents.py
+++ b/scripts/constituents.py
@@ -750,8 +750,17 @@ class ConstituentVarDict(VarDictionary):
                            add_intent="out", extra_space=1)
         # end for
         cap.blank_line()
+        cap.write(f"{herrcode} = 0", 2)
+        cap.write(f"{herrmsg} = ''", 2)
         cap.write(f"call {const_obj_name}%const_index(const_index, " +        \
                   f"stdname, {obj_err_callstr})", 2)
+        cap.write("if (const_index < 1) then", 2)
+        cap.write("const_index = -1", 3)
+        cap.write(f"if ({herrcode} == 0) then", 3)
+        cap.write(f"{herrcode} = 1", 4)
+        cap.write(f"{herrmsg} = 'No constituent named '//trim(stdname)", 4)
+        cap.write("end if", 3)
+        cap.write("end if", 2)
         cap.write(f"end {substmt}", 1)
 
     @staticmethod
-- 
2.43.0


From 99f9519ed464fadd6b66d56ec22e000cf3b7eb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:12 +0000
Subject: [PATCH 56/74] fix: constituents could not be registered unless every
 suite had been

---
 scripts/constituents.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/scripts/constituents.py b/scripts/constituents.py
index 5582601..ed936b6 100644
--- a/scripts/constituents.py
+++ b/scripts/constituents.py
@@ -537,15 +537,18 @@ class ConstituentVarDict(VarDictionary):
         # Register dynamic constituents
         cap.comment("Add dynamic constituent properties", 2)
         for dyn_const in dyn_const_names:
-           cap.write(f"do index = 1, size({dyn_const}, 1)", 2)
-           cap.write(f"const_prop => {dyn_const}(index)", 3)
+           # The array is not there if this suite has not been registered
+           cap.write(f"if (allocated({dyn_const})) then", 2)
+           cap.write(f"do index = 1, size({dyn_const}, 1)", 3)
+           cap.write(f"const_prop => {dyn_const}(index)", 4)
            stmt = f"call {const_obj_name}%new_field(const_prop, {obj_err_callstr})"
-           cap.write(stmt, 3)
-           cap.write("nullify(const_prop)", 3)
-           cap.write(f"if ({herrcode} /= 0) then", 3)
-           cap.write("return", 4)
-           cap.write("end if", 3)
-           cap.write("end do", 2)
+           cap.write(stmt, 4)
+           cap.write("nullify(const_prop)", 4)
+           cap.write(f"if ({herrcode} /= 0) then", 4)
+           cap.write("return", 5)
+           cap.write("end if", 4)
+           cap.write("end do", 3)
+           cap.write("end if", 2)
         # end for
 
         # Register suite constituents
-- 
2.43.0


From b21981ac3ee9e90192fa142488d6c3bebc89961e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:12 +0000
Subject: [PATCH 57/74] fix: a registry without known constituents computed its
 table size from log(0)

---
 src/ccpp_constituent_prop_mod.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index f9d18ad..b545201 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -1266,7 +1266,7 @@ CONTAINS
       ! Clear any data
       call this%reset()
       ! Figure a log base 2 for initializing hash table
-      tbl_size = num_elements * 10 ! Hash padding
+      tbl_size = max(num_elements, 1) * 10 ! Hash padding
       tbl_size = int((log(real(tbl_size, kind_phys)) / log(2.0_kind_phys)) +  &
            1.0_kind_phys)
       ! Initialize hash table
-- 
2.43.0


From 72e780dcbf52b1dbf59e159fa4eea79b3b45a5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:10 +0000
Subject: [PATCH 58/74] fix: the constituent object freed property objects of
 the host and of the cap

---
 scripts/constituents.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/scripts/constituents.py b/scripts/constituents.py
index ed936b6..bb05969 100644
--- a/scripts/constituents.py
+++ b/scripts/constituents.py
@@ -525,7 +525,13 @@ class ConstituentVarDict(VarDictionary):
         # Register host model constituents
         cap.comment("Add host model constituent metadata", 2)
         cap.write("do index = 1, size(host_constituents, 1)", 2)
-        cap.write("const_prop => host_constituents(index)", 3)
+        # The constituent object owns (and frees) the properties it is given
+        cap.write(f"allocate(const_prop, stat={herrcode})", 3)
+        cap.write(f"if ({herrcode} /= 0) then", 3)
+        cap.write(f'{herrmsg} = "ERROR allocating const_prop"', 4)
+        cap.write("return", 4)
+        cap.write("end if", 3)
+        cap.write("const_prop = host_constituents(index)", 3)
         stmt = f"call {const_obj_name}%new_field(const_prop, {obj_err_callstr})"
         cap.write(stmt, 3)
         cap.write("nullify(const_prop)", 3)
@@ -540,7 +546,12 @@ class ConstituentVarDict(VarDictionary):
            # The array is not there if this suite has not been registered
            cap.write(f"if (allocated({dyn_const})) then", 2)
            cap.write(f"do index = 1, size({dyn_const}, 1)", 3)
-           cap.write(f"const_prop => {dyn_const}(index)", 4)
+           cap.write(f"allocate(const_prop, stat={herrcode})", 4)
+           cap.write(f"if ({herrcode} /= 0) then", 4)
+           cap.write(f'{herrmsg} = "ERROR allocating const_prop"', 5)
+           cap.write("return", 5)
+           cap.write("end if", 4)
+           cap.write(f"const_prop = {dyn_const}(index)", 4)
            stmt = f"call {const_obj_name}%new_field(const_prop, {obj_err_callstr})"
            cap.write(stmt, 4)
            cap.write("nullify(const_prop)", 4)
-- 
2.43.0


From 8024fa11ca2d6d9578dd89ebeec8014228ef1993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:25 +0000
Subject: [PATCH 59/74] fix: schemes could not use the same local name for
 different constituents

---
 scripts/constituents.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/constituents.py b/scripts/constituents.py
index bb05969..c20013f 100644
--- a/scripts/constituents.py
+++ b/scripts/constituents.py
@@ -114,7 +114,8 @@ class ConstituentVarDict(VarDictionary):
             # end for
             var = source_var.clone({'dimensions' : newdims}, remove_intent=True,
                                    source_type=self.__constituent_type)
-            self.add_variable(var, self.__run_env)
+            self.add_variable(var, self.__run_env, gen_unique=True)
+            var = self[standard_name]
         return var
 
     @staticmethod
-- 
2.43.0


From 1f4632e67089b83d6b8f40318df191a942e48e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:18 +0000
Subject: [PATCH 60/74] fix: group caps did not import the chunk bounds when
 the host also has blocked data

---
 scripts/mkstatic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 8d15ad2..d730427 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1139,7 +1139,7 @@ end module {module}
                                     and not add_var in additional_variables_required + arguments[scheme_name][subroutine_name]:
                                 logging.debug("Adding variable {} for handling blocked data structures".format(add_var))
                                 additional_variables_required.append(add_var)
-                    elif ccpp_stage == 'run' and \
+                    if ccpp_stage == 'run' and \
                             CCPP_HORIZONTAL_LOOP_BEGIN in metadata_define.keys() and \
                             CCPP_HORIZONTAL_LOOP_END in metadata_define.keys() and \
                             CCPP_CHUNK_EXTENT in metadata_define.keys():
-- 
2.43.0


From 9e8bcf3f10ee2f6b9dea9edcf28d7c94dba5f949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:54 +0000
Subject: [PATCH 61/74] fix: schemes moved into a vertical loop transformed
 their arguments twice

---
 scripts/suite_objects.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 982957b..ec3883e 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1260,6 +1260,11 @@ class Scheme(SuiteObject):
             raise ParseInternalError(estr.format(self.subroutine_name),
                                      context=self.__context)
         # end if
+        # The Scheme is analyzed again after it has been moved to a VerticalLoop
+        self.__var_debug_checks = list()
+        self.__forward_transforms = list()
+        self.__reverse_transforms = list()
+        self.__optional_vars = list()
         scheme_mods = set()
         scheme_mods.add((my_header.module, self.subroutine_name))
         for var in my_header.variable_list():
-- 
2.43.0


From 0b5d28f008843f80d56a5d8bd0a7804f38dfef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:54 +0000
Subject: [PATCH 62/74] fix: a second scheme needing a vertical loop was called
 outside of any loop

The loop variables of the first loop were found by every later scheme of
the group, and the extent of the loop was not an argument of the group.
---
 scripts/suite_objects.py | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index ec3883e..be74d47 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -546,6 +546,18 @@ class SuiteObject(VarDictionary):
         # end for
         return dim_match
 
+    def vert_index_exists(self, vloop_subst):
+        """Return True iff the loop index for <vloop_subst> can be used here.
+        The index of a VerticalLoop is only set inside that loop."""
+        svars = vloop_subst.has_subst(self, any_scope=True)
+        if svars is None:
+            return False
+        # end if
+        if any(x.source.ptype in _API_LOCAL_VAR_TYPES for x in svars):
+            return self.vert_dim_match(vloop_subst) is not None
+        # end if
+        return True
+
     def horiz_dim_match(self, ndim, hdim, nloop_subst):
         """Find a match between <ndim> and <hdim>, if they are both
         horizontal dimensions.
@@ -724,16 +736,11 @@ class SuiteObject(VarDictionary):
                 vmatch_dims = ':'.join(vvmatch.required_stdnames)
                 # See if the missing vertical dimensions exist
                 missing_vert_dim = None
-                for mstdname in vvmatch.required_stdnames:
-                    mvdim = self.find_variable(standard_name=mstdname,
-                                               any_scope=True)
-                    if not mvdim:
-                        missing_vert_dim = vmatch_dims
-                        match = False # Should trigger vertical loop action
-                        reason = 'missing vertical dimension'
-                        break
-                    # end if
-                # end for
+                if not self.vert_index_exists(vvmatch):
+                    missing_vert_dim = vmatch_dims
+                    match = False # Should trigger vertical loop action
+                    reason = 'missing vertical dimension'
+                # end if
                 # While we have a missing vertical dimension which has been
                 # created, do NOT enter the substitution into have_dims.
                 # The supplied variable still has a vertical dimension.
@@ -892,8 +899,11 @@ class SuiteObject(VarDictionary):
                     local_dims = new_vdims[:vdim_ind] + new_vdims[vdim_ind+1:]
                     vmatch = VarDictionary.loop_var_match(dict_vdim)
                     vloop_name = ':'.join(vmatch.required_stdnames)
-                    if self.parent.find_variable(standard_name=vloop_name,
-                                                 any_scope=True) is None:
+                    if self.parent.vert_index_exists(vmatch):
+                        # Only pass the current level
+                        new_vdims = list(new_vdims)
+                        new_vdims[vdim_ind] = vloop_name
+                    else:
                         missing_vert = vloop_name
                         found_var = False
                     # end if
@@ -2108,6 +2118,10 @@ class VerticalLoop(SuiteObject):
         # If not found, check the suite level
         if local_dim is None:
             local_dim = group.suite.find_variable(standard_name=dim_name)
+            if local_dim is not None:
+                # Make sure the variable is available to the Group
+                self.parent.add_call_list_variable(local_dim, exists_ok=True)
+            # end if
         # end if
         if local_dim is None:
             emsg = 'No variable found for vertical loop dimension {}'
-- 
2.43.0


From d3ee429086377663351edda063c8e78e6db1fdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:00 +0000
Subject: [PATCH 63/74] fix: arrays of a suite were indexed by the loop of an
 earlier scheme, transforms ignored the level

---
 scripts/metavar.py       |  4 +++-
 scripts/suite_objects.py | 17 ++++++++++++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index da35463..35729a9 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -26,6 +26,7 @@ from parse_tools import ParseInternalError, ParseSyntaxError, CCPPError
 from parse_tools import FORTRAN_CONDITIONAL_REGEX_WORDS, FORTRAN_CONDITIONAL_REGEX
 from var_props import CCPP_LOOP_DIM_SUBSTS, VariableProperty, VarCompatObj
 from var_props import find_horizontal_dimension, find_vertical_dimension
+from var_props import is_vertical_dimension
 from var_props import standard_name_to_long_name, default_kind_val
 
 ##############################################################################
@@ -612,7 +613,8 @@ class Var:
                 dstdnames = dim.split(':')
                 add_dims = explicit_dims or (len(dstdnames) == 1)
                 dvar = None
-                if add_dims and loop_subst:
+                # A single level has the loop index as its dimension
+                if add_dims and loop_subst and not is_vertical_dimension(dim):
                     for vdict in var_dicts:
                         dvar = vdict.find_loop_dim_match(dim)
                         if dvar is not None:
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index be74d47..0cd94e3 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1838,9 +1838,20 @@ class Scheme(SuiteObject):
             emsg = "{}: Cannot find variable, '{}', for transform"
             raise CCPPError(emsg.format(self.subroutine_name, stdname))
         # end if
+        svar = self.call_list.find_variable(standard_name=stdname,
+                                            any_scope=False)
+        if indices is not None:
+            # Add the index of any enclosing VerticalLoop
+            indices = list(indices)
+            for dindex, dim in enumerate(svar.get_dimensions()):
+                if dim in ['vertical_layer_index',
+                           'vertical_interface_index']:
+                    ivar = self.find_variable(standard_name=dim)
+                    indices.insert(dindex, ivar.get_prop_value('local_name'))
+                # end if
+            # end for
+        # end if
         if SuiteObject.is_suite_variable(lvar) and self.run_phase():
-            svar = self.call_list.find_variable(standard_name=stdname,
-                                                any_scope=False)
             _, hdim = find_horizontal_dimension(svar.get_dimensions())
             if hdim >= 0:
                 bounds = list()
@@ -2151,7 +2162,7 @@ class VerticalLoop(SuiteObject):
         for item in self.parts:
             item.write(outfile, errcode, errmsg, indent+1)
         # end for
-        outfile.write('end do', 2)
+        outfile.write('end do', indent)
 
     @property
     def dimension_name(self):
-- 
2.43.0


From bc175c904a847ad89036539ed857cd7e9b697a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:31 +0000
Subject: [PATCH 64/74] fix: the generated caps and datatable depended on the
 order of Python sets

---
 scripts/ccpp_datafile.py |  2 +-
 scripts/host_cap.py      |  8 ++++----
 scripts/metavar.py       | 10 ++++++----
 scripts/suite_objects.py |  4 ++--
 4 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/scripts/ccpp_datafile.py b/scripts/ccpp_datafile.py
index 4eafffc..dd41002 100755
--- a/scripts/ccpp_datafile.py
+++ b/scripts/ccpp_datafile.py
@@ -1179,7 +1179,7 @@ def generate_ccpp_datatable(run_env, host_model, api, scheme_headers,
             host_depends.add(dep_file)
         # end for
     # end for
-    _add_dependencies(datatable, scheme_depends, host_depends)
+    _add_dependencies(datatable, sorted(scheme_depends), sorted(host_depends))
     # Write tree
     datatable_tree = PrettyElementTree(datatable)
     datatable_tree.write(run_env.datatable_file)
diff --git a/scripts/host_cap.py b/scripts/host_cap.py
index 42a4846..8c47a40 100644
--- a/scripts/host_cap.py
+++ b/scripts/host_cap.py
@@ -302,8 +302,8 @@ def add_constituent_vars(cap, host_model, suite_list, run_env):
     # Add entries for each constituent (once per standard name)
     const_stdnames = set()
     tend_stdnames = set()
-    const_vars = set()
-    tend_vars = set()
+    const_vars = list()
+    tend_vars = list()
     for suite in suite_list:
         if run_env.verbose:
             lmsg = "Adding constituents from {} to {}"
@@ -367,10 +367,10 @@ def add_constituent_vars(cap, host_model, suite_list, run_env):
                 vkind = cvar.get_prop_value('kind')
                 ddt_mdata.append(f" type = {vtype} | kind = {vkind}")
                 if is_tend_var:
-                    tend_vars.add(cvar)
+                    tend_vars.append(cvar)
                     tend_stdnames.add(std_name)
                 else:
-                    const_vars.add(cvar)
+                    const_vars.append(cvar)
                     const_stdnames.add(std_name)
                 # end if
 
diff --git a/scripts/metavar.py b/scripts/metavar.py
index 35729a9..13f4b1a 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -946,8 +946,9 @@ class Var:
         return dims
 
     def get_dim_stdnames(self, include_constants=True):
-        """Return a set of all the dimension standard names for this Var"""
-        dimset = set()
+        """Return a list of all the (unique) dimension standard names for
+        this Var, in order of appearance"""
+        dimset = list()
         for dim in self.get_dimensions():
             for name in dim.split(':'):
                 # Weed out the integers
@@ -955,8 +956,9 @@ class Var:
                     _ = int(name)
                 except ValueError:
                     # Not an integer, maybe add it
-                    if include_constants or (not name in CCPP_CONSTANT_VARS):
-                        dimset.add(name)
+                    use = include_constants or (not name in CCPP_CONSTANT_VARS)
+                    if use and (name not in dimset):
+                        dimset.append(name)
                     # end if
                 # end try
             # end for
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 0cd94e3..ef4cc55 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2827,7 +2827,7 @@ class Group(SuiteObject):
             alloc_str = self.allocate_dim_str(dims, var.context)
             outfile.write(alloc_stmt.format(lname, alloc_str), indent+1)
         # end for
-        for lname in optional_var_set:
+        for lname in sorted(optional_var_set):
             var = subpart_optional_vars[lname][0]
             dims = var.get_dimensions()
             alloc_str = self.allocate_dim_str(dims, var.context)
@@ -2860,7 +2860,7 @@ class Group(SuiteObject):
         for lname in sorted(allocatable_var_set):
             outfile.write('if (allocated({})) {} deallocate({})'.format(lname,' '*(20-len(lname)),lname), indent+1)
         # end for
-        for lname in optional_var_set:
+        for lname in sorted(optional_var_set):
             outfile.write('if (allocated({})) {} deallocate({})'.format(lname,' '*(20-len(lname)),lname), indent+1)
         # end for
         # Nullify local pointers
-- 
2.43.0


From ce38562d552bd305bdf42b76424e3acda60a30aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:31 +0000
Subject: [PATCH 65/74] fix: prebuild output depended on the order of Python
 sets and directory listings

---
 scripts/ccpp_prebuild.py   | 4 ++--
 scripts/file_utils.py      | 4 ++--
 scripts/metadata_parser.py | 6 +++---
 scripts/mkstatic.py        | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index c8f9a29..dcb832e 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -167,7 +167,7 @@ def get_all_suites(suites_dir):
     success = False
     logging.info("No suites were given, compiling a list of all suites")
     sdfs = []
-    for f in os.listdir(suites_dir):
+    for f in sorted(os.listdir(suites_dir)):
         match = SUITE_DEFINITION_FILENAME_PATTERN.match(f)
         if match:
             logging.info('Adding suite definition file {}'.format(f))
@@ -431,7 +431,7 @@ def generate_list_of_schemes_and_dependencies_to_compile(schemes_in_files, depen
             [dependency for dependency_list in list(dependencies1.values()) for dependency in dependency_list] + \
             [dependency for dependency_list in list(dependencies2.values()) for dependency in dependency_list]
     # Remove duplicates
-    return (success, list(set(schemes_and_dependencies_to_compile)))
+    return (success, list(dict.fromkeys(schemes_and_dependencies_to_compile)))
 
 def compare_metadata(metadata_define, metadata_request):
     """Compare the requested metadata to the defined one. For each requested entry, a
diff --git a/scripts/file_utils.py b/scripts/file_utils.py
index dd89168..4e081d1 100644
--- a/scripts/file_utils.py
+++ b/scripts/file_utils.py
@@ -59,7 +59,7 @@ def add_unique_files(filepath, pdesc, master_list, logger):
     Return a list of errors found
     Wildcards in <filepath> are expanded"""
     errors = list()
-    for file in glob.glob(filepath):
+    for file in sorted(glob.glob(filepath)):
         errs = check_for_existing_file(file, pdesc)
         if errs:
             errors.extend(errs)
@@ -149,7 +149,7 @@ def _create_file_list_int(files, suffices, file_type, logger,
             errs = add_unique_files(filename, pdesc, master_list, logger)
             errors.extend(errs)
         elif suff == 'txt':
-            tfiles = glob.glob(filename)
+            tfiles = sorted(glob.glob(filename))
             if tfiles:
                 for file in tfiles:
                     if file in txt_files:
diff --git a/scripts/metadata_parser.py b/scripts/metadata_parser.py
index d1277eb..86d8624 100755
--- a/scripts/metadata_parser.py
+++ b/scripts/metadata_parser.py
@@ -92,7 +92,7 @@ def merge_dictionaries(x, y):
                 z[key] = x[key] + y[key]
             # Physics set dictionaries containing lists of physics sets of type string for each key=standard_name
             elif type(x[key][0]) is str:
-                z[key] = list(set(x[key] + y[key]))
+                z[key] = list(dict.fromkeys(x[key] + y[key]))
             else:
                 raise Exception("x[key][0] is of unsupported type", type(x[key][0]))
         elif key in x_keys:
@@ -413,7 +413,7 @@ def parse_variable_tables(filepath, filename):
                             (this_metadata, these_dependencies) = read_new_metadata(metadata_filename, module_name, table_name)
                             if these_dependencies:
                                 # Remove duplicates when combining lists
-                                dependencies[table_name] = list(set(dependencies[table_name] + these_dependencies))
+                                dependencies[table_name] = list(dict.fromkeys(dependencies[table_name] + these_dependencies))
                             for var_name in this_metadata.keys():
                                 for var in this_metadata[var_name]:
                                     if var_name in CCPP_MANDATORY_VARIABLES.keys() and not CCPP_MANDATORY_VARIABLES[var_name].compatible(var):
@@ -695,7 +695,7 @@ def parse_scheme_tables(filepath, filename):
                                                                                     scheme_name=scheme_name, subroutine_name=subroutine_name)
                             if these_dependencies:
                                 # Remove duplicates when combining lists
-                                dependencies[scheme_name] = list(set(dependencies[scheme_name] + these_dependencies))
+                                dependencies[scheme_name] = list(dict.fromkeys(dependencies[scheme_name] + these_dependencies))
                             for var_name in this_metadata.keys():
                                 # Add standard_name to argument list for this subroutine
                                 arguments[scheme_name][subroutine_name].append(var_name)
diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index d730427..50a9ae6 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -96,7 +96,7 @@ def extract_parents_and_indices_from_local_name(local_name):
         # Remove this innermost index group (...) from local_name
         local_name = local_name.replace(local_name[last_open:last_closed+1], '')
     # Remove duplicates from indices
-    indices = list(set(indices))
+    indices = list(dict.fromkeys(indices))
     # Derive parent of actual variable (now that all subsets have been processed)
     if '%' in local_name:
         parent = local_name[:local_name.find('%')]
-- 
2.43.0


From cf76108817f006281664aa724944f32fc2ab31cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:36 +0000
Subject: [PATCH 66/74] fix: prototype metadata missed optional arguments and
 mixed up the tables of modules

---
 scripts/ccpp_fortran_to_metadata.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/scripts/ccpp_fortran_to_metadata.py b/scripts/ccpp_fortran_to_metadata.py
index 4c301d1..5a76d1b 100755
--- a/scripts/ccpp_fortran_to_metadata.py
+++ b/scripts/ccpp_fortran_to_metadata.py
@@ -91,17 +91,23 @@ def write_metadata_file(mfilename, ftables, sep):
     # Write the metadata file with all the items collected from Fortran
     with open(mfilename, 'w') as outfile:
         header_sep = ''
-        table_name = ''
+        table_key = None
         for table in ftables:
             # Write the table properties section
             # Note that there may be extra tables depending on how the
             # Fortran was parsed.
-            if (not table_name) or (table_name != table.table_name):
+            if (table.table_type == 'module') and \
+               (not any(x.variable_list() for x in table.sections())):
+                # A module without module data (e.g., it defines a DDT)
+                continue
+            # end if
+            if table_key != (table.table_name, table.table_type):
                 outfile.write("{}[ccpp-table-properties]{}".format(header_sep,
                                                                    os.linesep))
                 header_sep = sep + os.linesep
-                table_name = table.table_name
-                outfile.write("  name = {}{}".format(table_name, os.linesep))
+                table_key = (table.table_name, table.table_type)
+                outfile.write("  name = {}{}".format(table.table_name,
+                                                     os.linesep))
                 outfile.write("  type = {}{}".format(table.table_type,
                                                      os.linesep))
             # end if
@@ -160,6 +166,9 @@ def write_metadata_file(mfilename, ftables, sep):
                         prop = var.get_prop_value('intent')
                         outfile.write('  intent = {}{}'.format(prop,
                                                                os.linesep))
+                        if var.get_prop_value('optional'):
+                            outfile.write('  optional = True{}'.format(os.linesep))
+                        # end if
                     # end if
                 # end for
             # end for
-- 
2.43.0


From 1103aaea8bf8d6fb8a09613bdbbe4c465a4e2443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:13 +0000
Subject: [PATCH 67/74] fix: the Fortran parser missed the end of modules in
 some valid spellings

---
 scripts/fortran_tools/parse_fortran_file.py | 6 ++++--
 scripts/parse_tools/parse_source.py         | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index 9abd0fe..67c217c 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -32,9 +32,9 @@ from metavar import VarDictionary
 _COMMENT_RE = re.compile(r"!.*$")
 _FIXED_COMMENT_RE = re.compile(r"(?i)([C*]|(?:[ ]{0,4}!))")
 _PROGRAM_RE = re.compile(r"(?i)\s*program\s+"+FORTRAN_ID)
-_ENDPROGRAM_RE = re.compile(r"(?i)\s*end\s*program\s+"+FORTRAN_ID+r"?")
+_ENDPROGRAM_RE = re.compile(r"(?i)\s*end\s*program(?:\s+"+FORTRAN_ID+r")?\s*(?:!.*)?$")
 _MODULE_RE = re.compile(r"(?i)\s*module\s+"+FORTRAN_ID)
-_ENDMODULE_RE = re.compile(r"(?i)\s*end\s*module\s+"+FORTRAN_ID+r"?")
+_ENDMODULE_RE = re.compile(r"(?i)\s*end\s*module(?:\s+"+FORTRAN_ID+r")?\s*(?:!.*)?$")
 _CONTAINS_RE = re.compile(r"(?i)\s*contains")
 _CONTINUE_RE = re.compile(r"(?i)&\s*(!.*)?$")
 _FIXED_CONTINUE_RE = re.compile(r"(?i)     [^0 ]")
@@ -805,6 +805,8 @@ def parse_specification(pobj, statements, run_env, mod_name=None,
             type_def = fortran_type_definition(statement)
             if pmatch is not None:
                 # We never found a contains statement
+                # Put statement back so caller can close the region
+                statements.insert(0, statement)
                 inspec = False
                 break
             elif asmatch is not None:
diff --git a/scripts/parse_tools/parse_source.py b/scripts/parse_tools/parse_source.py
index 2ed0e5b..dac880e 100644
--- a/scripts/parse_tools/parse_source.py
+++ b/scripts/parse_tools/parse_source.py
@@ -323,7 +323,8 @@ class ParseContext():
                                         self)
             # End if
             if (region_name is not None) and (curr_name is not None):
-                if region_name != curr_name:
+                # Fortran names are not case sensitive
+                if region_name.lower() != curr_name.lower():
                     emsg = "Trying to exit {} {} while currently in {} {}"
                     raise ParseContextError(emsg.format(region_type,
                                                         region_name,
-- 
2.43.0


From b940c5976633972600d32e802e765f097a667ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:59 +0000
Subject: [PATCH 68/74] fix: metadata2html.py could not import the parse tools

---
 scripts/metadata2html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/metadata2html.py b/scripts/metadata2html.py
index 7e4a540..5a7ef97 100755
--- a/scripts/metadata2html.py
+++ b/scripts/metadata2html.py
@@ -8,8 +8,8 @@ import sys
 
 # CCPP framework imports
 from common import CCPP_INTERNAL_VARIABLE_DEFINITON_FILE
-from parse_checkers import registered_fortran_ddt_names
 from parse_tools import init_log, set_log_level
+from parse_checkers import registered_fortran_ddt_names
 from metadata_table import MetadataTable, parse_metadata_file
 from framework_env import CCPPFrameworkEnv
 
-- 
2.43.0


From 49a980307291e1df9b6c622b840cf705777090b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:07 +0000
Subject: [PATCH 69/74] fix: special characters of descriptions broke the
 generated documentation

---
 scripts/common.py         | 8 ++++----
 scripts/metadata_table.py | 3 ++-
 scripts/mkdoc.py          | 5 +++--
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/scripts/common.py b/scripts/common.py
index 6f82969..bff6ba7 100755
--- a/scripts/common.py
+++ b/scripts/common.py
@@ -170,10 +170,10 @@ def decode_container_as_dict(container):
 
 def escape_tex(text):
     """Substitutes characters for generating LaTeX sources files from Python."""
-    return text.replace(
-                '%', '\%').replace(
-                '_', '\_').replace(
-                '&', '\&')
+    special = {'%' : r'\%', '_' : r'\_', '&' : r'\&', '#' : r'\#', '$' : r'\$',
+               '{' : r'\{', '}' : r'\}', '^' : r'\textasciicircum{}',
+               '~' : r'\textasciitilde{}', '\\' : r'\textbackslash{}'}
+    return ''.join([special.get(char, char) for char in text])
 
 def isstring(s):
     """Return true if a variable is a string"""
diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index 2a0a1ee..eba63ab 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -126,6 +126,7 @@ Notes on the input format:
 
 # Python library imports
 import difflib
+import html
 import logging
 import os.path
 import re
@@ -1243,7 +1244,7 @@ class MetadataSection(ParseSource):
                     value = '(' + ', '.join(value) + ')'
                 elif value is None:
                     value = f"n/a"
-                row += f"<td>{value}</td>".format(value=value)
+                row += f"<td>{html.escape(str(value))}</td>"
             row += f"</tr>\n"
             contents += row
         filename = os.path.join(outdir, self.title + '.html')
diff --git a/scripts/mkdoc.py b/scripts/mkdoc.py
index 018f88f..5ff6e47 100755
--- a/scripts/mkdoc.py
+++ b/scripts/mkdoc.py
@@ -7,6 +7,7 @@
 # DH* TODO: create a Python module metadata.py with a class Metadata
 # and use this for ccpp_prebuild.py; create to_html and to_latex routines for it
 
+from html import escape
 import logging
 import os
 
@@ -50,14 +51,14 @@ def metadata_to_html(metadata, model, filename):
             # ... create html row ...
             line = '''<tr>
   <td bgcolor="{bgcolor}" align="left" >{v.standard_name}</td>
-  <td bgcolor="{bgcolor}" align="left" >{v.long_name}    </td>
+  <td bgcolor="{bgcolor}" align="left" >{long_name}      </td>
   <td bgcolor="{bgcolor}" align="left" >{v.units}        </td>
   <td bgcolor="{bgcolor}" align="right">{rank}           </td>
   <td bgcolor="{bgcolor}" align="left" >{v.type}         </td>
   <td bgcolor="{bgcolor}" align="left" >{v.kind}         </td>
   <td bgcolor="{bgcolor}" align="left" >{container}      </td>
   <td bgcolor="{bgcolor}" align="left" >{v.local_name}   </td>
-</tr>'''.format(v=var, rank=var.rank.count(':'), container = decode_container(var.container), bgcolor=shading[count])
+</tr>'''.format(v=var, long_name=escape(var.long_name), rank=var.rank.count(':'), container = decode_container(var.container), bgcolor=shading[count])
             html += line
 
     # Footer
-- 
2.43.0


From e796858395325609e215d76c8a69eb8619b24a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:37 +0000
Subject: [PATCH 70/74] fix: default values of variables which the host does
 not provide were ignored

---
 scripts/suite_objects.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index ef4cc55..5fa8478 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2564,6 +2564,16 @@ class Group(SuiteObject):
             raise CCPPError(emsg)
         # end if
 
+    @staticmethod
+    def write_default_value(outfile, var, indent):
+        """If <var>, a variable managed by this suite, has a default value,
+        write a statement to <outfile> which sets <var> to that value"""
+        def_val = var.get_prop_value('default_value')
+        if def_val:
+            lname = var.get_prop_value('local_name')
+            outfile.write('{} = {}'.format(lname, def_val), indent)
+        # end if
+
     def analyze(self, phase, suite_vars, scheme_library, ddt_library,
                 check_suite_state, set_suite_state):
         """Analyze the Group's interface to prepare for writing"""
@@ -2833,20 +2843,26 @@ class Group(SuiteObject):
             alloc_str = self.allocate_dim_str(dims, var.context)
             outfile.write(alloc_stmt.format(lname, alloc_str), indent+1)
         # end for
+        # Set the local variables which have a default value
+        for var, _, _ in (list(subpart_allocate_vars.values()) +
+                          list(subpart_scalar_vars.values())):
+            self.write_default_value(outfile, var, indent+1)
+        # end for
         # Allocate suite vars
         if allocate:
             outfile.write('\n! Allocate suite_vars', indent+1)
             for svar in suite_vars.variable_list():
                 dims = svar.get_dimensions()
-                if dims:
-                    timestep_var = svar.get_prop_value('persistence')
-                    if group_type == timestep_var:
+                timestep_var = svar.get_prop_value('persistence')
+                if group_type == timestep_var:
+                    if dims:
                         alloc_str = self.allocate_dim_str(dims, svar.context)
                         lname = svar.get_prop_value('local_name')
                         outfile.write(alloc_stmt.format(lname, alloc_str),
                                       indent+1)
-                    # end if (do not allocate in this phase)
-                # end if dims (do not allocate scalars)
+                    # end if dims (do not allocate scalars)
+                    self.write_default_value(outfile, svar, indent+1)
+                # end if (do not allocate in this phase)
             # end for
         # end if
         # Write the scheme and subcycle calls
-- 
2.43.0


From 61308e1cc30301cc8f133b02dc66d47ab07d8e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:46 +0000
Subject: [PATCH 71/74] fix: units of tendencies were compared with those of
 the constituent incorrectly

---
 scripts/var_props.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/var_props.py b/scripts/var_props.py
index ac50019..720f306 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -967,8 +967,11 @@ class VarCompatObj:
             # Check units argument
             if is_tend:
                 # A tendency variable's units should be "<var2_units> s-1"
-                tendency_split_units = var1_units.split('s-1')[0].strip()
-                if tendency_split_units != var2_units:
+                tendency_units = [f"{var2_units} s-1"]
+                if var2_units == '1':
+                    tendency_units.append('s-1')
+                # end if
+                if ' '.join(var1_units.split()) not in tendency_units:
                     # We don't currently support unit conversions for tendency variables
                     emsg = f"\nMismatch tendency variable units '{var1_units}'"
                     emsg += f" for variable '{var1_stdname}'."
-- 
2.43.0


From f28d7789e792a1da8dbb8d91c4d9dc64206ccc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:39 +0000
Subject: [PATCH 72/74] fix: ccpp_prebuild listed files twice for the build
 system

---
 scripts/ccpp_prebuild.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index dcb832e..b9c39e4 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -662,7 +662,8 @@ def generate_schemes_makefile(schemes, schemes_makefile, schemes_cmakefile, sche
     # Sort schemes so that the order remains the same (for cmake to avoid) recompiling
     schemes.sort()
     # Generate list of schemes with absolute path
-    schemes_with_abspath = [ os.path.abspath(scheme) for scheme in schemes ]
+    # (a file can be a dependency as well as a variable definition file)
+    schemes_with_abspath = list(dict.fromkeys(os.path.abspath(scheme) for scheme in schemes))
     makefile.write(schemes_with_abspath)
     cmakefile.write(schemes_with_abspath)
     sourcefile.write(schemes_with_abspath)
-- 
2.43.0


From 8cfda6f601d0876682e4d4deab553f8f20a7c44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:35 +0000
Subject: [PATCH 73/74] fix: ccpp_prebuild confused metadata files with the
 same name in different folders

---
 scripts/metadata_parser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scripts/metadata_parser.py b/scripts/metadata_parser.py
index 86d8624..023f953 100755
--- a/scripts/metadata_parser.py
+++ b/scripts/metadata_parser.py
@@ -108,12 +108,14 @@ def read_new_metadata(filename, module_name, table_name, scheme_name = None, sub
 
     # Save metadata, because this routine new_metadata
     # is called once for every table in that file
-    if filename in NEW_METADATA_SAVE.keys():
-        new_metadata_headers = NEW_METADATA_SAVE[filename]
+    # Files in different directories can have the same name
+    filepath = os.path.abspath(filename)
+    if filepath in NEW_METADATA_SAVE.keys():
+        new_metadata_headers = NEW_METADATA_SAVE[filepath]
     else:
         new_metadata_headers = parse_metadata_file(filename, known_ddts=registered_fortran_ddt_names(),
                                                                                 run_env=_DUMMY_RUN_ENV)
-        NEW_METADATA_SAVE[filename] = new_metadata_headers
+        NEW_METADATA_SAVE[filepath] = new_metadata_headers
 
     # Record dependencies for the metadata table (only applies to schemes)
     dependencies = []
-- 
2.43.0


From 4110cf48441f9a1f23bf518d836bcbd94797ca4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:56 +0000
Subject: [PATCH 74/74] fix: allocatable scheme arguments could not be passed
 in the run phase or next to plain ones

---
 scripts/host_cap.py      | 4 ++++
 scripts/metavar.py       | 4 ++++
 scripts/suite_objects.py | 9 ++++++++-
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/scripts/host_cap.py b/scripts/host_cap.py
index 8c47a40..5596fbc 100644
--- a/scripts/host_cap.py
+++ b/scripts/host_cap.py
@@ -528,6 +528,10 @@ def suite_part_call_list(host_model, const_dict, suite_part, subst_loop_vars,
         # End if
         if stdname not in CCPP_CONSTANT_VARS:
             lname = var_dict.var_call_string(hvar, loop_vars=loop_vars)
+            if sp_var.get_prop_value('allocatable'):
+                # This dummy argument needs the whole (allocatable) array
+                lname = var_dict.var_call_string(hvar)
+            # End if
             hmvars.append(f"{sp_lname}={lname}")
         # End if
     # End for
diff --git a/scripts/metavar.py b/scripts/metavar.py
index 13f4b1a..40df362 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -440,6 +440,10 @@ class Var:
             self._prop_dict['intent'] = sv_intent
         # end if
 
+    def set_allocatable(self):
+        """Make this (array) Var allocatable"""
+        self._prop_dict['allocatable'] = True
+
     @staticmethod
     def get_prop(name, spec_type=None):
         """Return VariableProperty object for <name> or None"""
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 5fa8478..cb6d3fe 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -170,7 +170,9 @@ class CallList(VarDictionary):
                     # end if
                     run_phase = self.routine.run_phase()
                     # We only need dimensions for suite variables in run phase
-                    need_dims = SuiteObject.is_suite_variable(dvar) and run_phase
+                    # (a section cannot be passed to an allocatable argument)
+                    need_dims = (SuiteObject.is_suite_variable(dvar) and run_phase
+                                 and (not var.get_prop_value('allocatable')))
                     vdims = var.call_dimstring(var_dicts=use_dicts,
                                                explicit_dims=need_dims,
                                                loop_subst=run_phase)
@@ -453,6 +455,11 @@ class SuiteObject(VarDictionary):
                                         exists_ok=exists_ok,
                                         gen_unique=gen_unique,
                                         adjust_intent=True)
+            if newvar.get_prop_value('allocatable'):
+                # Another scheme may use this variable as a plain array
+                self.call_list.find_variable(standard_name=stdname,
+                                             any_scope=False).set_allocatable()
+            # end if
             # We need to make sure that this variable's dimensions are available
             for vardim in newvar.get_dim_stdnames(include_constants=False):
                 # Unnamed dimensions are ok for allocatable variables
-- 
2.43.0

