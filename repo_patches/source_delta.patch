From 71cc8ea78ed455f488c321ef1690ad62edf92033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:30 +0000
Subject: [PATCH 01/24] fix: sum the stoichiometry of a product that is written
 more than once in a reaction

The test for an existing entry looked up the last reactant instead of the product, so
'HCHO = CO + HO2 + HO2' produced one HO2.
---
 Parse_eqn_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index aa72dae..41aaedb 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -279,7 +279,7 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
                             species_hess_gain_data[product]=[]
                         species_hess_gain_data[product].append(equation_step) #so from this we can work out a dx/dy
                         # -- Update loss dictionaries -- 
-                        if equation_step in gain_dict[reactant]:
+                        if equation_step in gain_dict[product]:
                             gain_dict[product][equation_step]+=stoich
                         else:
                             gain_dict[product][equation_step]=stoich
-- 
2.43.0


From 8dd775a433366fea5207e39a9cfdcca622cbfd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:30 +0000
Subject: [PATCH 02/24] fix: keep the name of a species with digits when it has
 a stoichiometric coefficient

split(stoich,1)[1] already holds the whole name: '2NO2' was read as species NO22.
---
 Parse_eqn_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 41aaedb..b1d1c7a 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -201,7 +201,7 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
                     #in temp[0] away from the original string. Lets assume that we can attach the first
                     #part of the text with the second number in temp. Thus
                     if reactant.index(stoich) == 0 :
-                        reactant=reactant.split(stoich,1)[1]+temp[1]
+                        reactant=reactant.split(stoich,1)[1]
                         stoich=float(stoich)
                     else:
                         stoich=1.0
@@ -258,7 +258,7 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
                             #in temp[0] away from the original string. Lets assume that we can attach the first
                             #part of the text with the second number in temp. Thus
                             if product.index(stoich) == 0 :
-                                product=product.split(stoich,1)[1]+temp[1]
+                                product=product.split(stoich,1)[1]
                                 stoich=float(stoich)
                             else:
                                 stoich=1.0
-- 
2.43.0


From 6e26179695c3318d122fd152c6aec9eae4396cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:30 +0000
Subject: [PATCH 03/24] fix: list a reactant that is written more than once in
 a reaction only once

loss_dict already holds the total stoichiometry, so listing 'NO + NO' twice made the
rate of reaction proportional to [NO]**4 in the generated reactant products.
---
 Parse_eqn_file.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index b1d1c7a..c775020 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -212,8 +212,13 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
             #++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
             #Now store the stoichiometry and reactant in dictionaries
             if reactant not in ['hv']:
-                stoich_dict[equation_step][reactant_step]=stoich
-                rate_dict_reactants[equation_step][reactant_step]=reactant 
+                # A reactant that is written more than once ('NO + NO') is listed once, with the total stoichiometry
+                listed=[step for step, name in rate_dict_reactants[equation_step].items() if name == reactant]
+                if listed:
+                    stoich_dict[equation_step][listed[0]]+=stoich
+                else:
+                    stoich_dict[equation_step][reactant_step]=stoich
+                    rate_dict_reactants[equation_step][reactant_step]=reactant 
                 # -- Update species dictionaries --
                 if reactant not in species_dict.values(): #check to see if entry already exists
                     species_dict[species_step]=reactant # useful for checking all parsed species
-- 
2.43.0


From cd0449226fe01484e5630abf7decb48eaef6f148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:42 +0000
Subject: [PATCH 04/24] fix: use the stoichiometric coefficient itself in the
 generated Fortran tendencies

Coefficients other than 1 were written as coefficient+1.
---
 Parse_eqn_file.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index c775020..d90cfaf 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2606,13 +2606,13 @@ def write_loss_gain_fortran(filename,equations,num_species,loss_dict,gain_dict,s
                             if stoich==1:
                                 f.write('-1.0*r(%s)'%(equation_step+1))
                             else:
-                                f.write('-1.0*r(%s)*%s'%(equation_step+1,stoich+1))
+                                f.write('-1.0*r(%s)*%s'%(equation_step+1,stoich))
                             loss_step+=1
                         else:
                             if stoich==1:
                                 f.write('-r(%s)'%(equation_step+1))
                             else:
-                                f.write('-r(%s)*%s'%(equation_step+1,stoich+1))
+                                f.write('-r(%s)*%s'%(equation_step+1,stoich))
                             loss_step+=1
                         flag+=1
                         
@@ -2629,13 +2629,13 @@ def write_loss_gain_fortran(filename,equations,num_species,loss_dict,gain_dict,s
                             if stoich==1:
                                 f.write('+r(%s)'%(equation_step+1))
                             else:
-                                f.write('+r(%s)*%s'%(equation_step+1,stoich+1))
+                                f.write('+r(%s)*%s'%(equation_step+1,stoich))
                             gain_step+=1
                         else:
                             if stoich==1:
                                 f.write('+r(%s)'%(equation_step+1))
                             else:
-                                f.write('+r(%s)*%s'%(equation_step+1,stoich+1))
+                                f.write('+r(%s)*%s'%(equation_step+1,stoich))
                             gain_step+=1
                         flag+=1
                         
-- 
2.43.0


From 6df35b05a0b4f1e55e63dff86ef2d4cf443d3c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:42 +0000
Subject: [PATCH 05/24] fix: net loss and gain in the saved sparse matrix for a
 species on both sides of a reaction

---
 Parse_eqn_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index d90cfaf..ca95284 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2406,10 +2406,10 @@ def write_loss_gain_matrix(filename,equations,num_species,loss_dict,gain_dict,sp
             for equation_step, stoich in gain_dict[species].items():
                 if stoich==1:
                     #f.write('+r[%s]'%(equation_step))
-                    loss_gain[species_step,equation_step]=1.0
+                    loss_gain[species_step,equation_step]+=1.0
                 else:
                     #f.write('+r[%s]*%s'%(equation_step,stoich))
-                    loss_gain[species_step,equation_step]=1.0*stoich
+                    loss_gain[species_step,equation_step]+=1.0*stoich
                 
     #Now convert matrix type for use in numerical operations later
     loss_gain = loss_gain.tocsr()
-- 
2.43.0


From 6457236d4edf9b6eb9d0d69ed585be9e8a31d057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:08 +0000
Subject: [PATCH 06/24] fix: differentiate powers below 2 in the generated
 Jacobian

A reactant with a fractional coefficient below 2 was left out of its own derivative. The
reduced power may be negative, hence the parentheses.
---
 Parse_eqn_file.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index ca95284..d14c25a 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2830,12 +2830,12 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                                                     step+=1
                                                 else:
                                                     f.write('*%s*y(%s)'%(stoich_first,species_dict2array[reactant2]+1))
-                                            elif stoich_first > 2:
+                                            else:
                                                 if step == 1:
-                                                    f.write('-%s*y(%s)**%s'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
+                                                    f.write('-%s*y(%s)**(%s)'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
                                                     step+=1
                                                 else:
-                                                    f.write('*%s*y(%s)**%s'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
+                                                    f.write('*%s*y(%s)**(%s)'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
                                         elif reactant2 != reactant:
                                             stoich=loss_dict[reactant2][equation]
                                             if stoich == 1:
@@ -2906,12 +2906,12 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                                                     step+=1
                                                 else:
                                                     f.write('*%s*y(%s)'%(stoich_first,species_dict2array[reactant2]+1))
-                                            elif stoich_first > 2:
+                                            else:
                                                 if step == 1:
-                                                    f.write('+%s*y(%s)**%s'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
+                                                    f.write('+%s*y(%s)**(%s)'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
                                                     step+=1
                                                 else:
-                                                    f.write('*%s*y(%s)**%s'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
+                                                    f.write('*%s*y(%s)**(%s)'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
                                         elif reactant2 != reactant:
                                             stoich=loss_dict[reactant2][equation]
                                             if stoich == 1:
@@ -3094,12 +3094,12 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                                                     step+=1
                                                 else:
                                                     f.write('*%s*y[%s]'%(stoich_first,species_dict2array[reactant2]))
-                                            elif stoich_first > 2:
+                                            else:
                                                 if step == 1:
-                                                    f.write('-%s*y[%s]**%s'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
+                                                    f.write('-%s*y[%s]**(%s)'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
                                                     step+=1
                                                 else:
-                                                    f.write('*%s*y[%s]**%s'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
+                                                    f.write('*%s*y[%s]**(%s)'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
                                         elif reactant2 != reactant:
                                             stoich=loss_dict[reactant2][equation]
                                             if stoich == 1:
@@ -3170,12 +3170,12 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                                                     step+=1
                                                 else:
                                                     f.write('*%s*y[%s]'%(stoich_first,species_dict2array[reactant2]))
-                                            elif stoich_first > 2:
+                                            else:
                                                 if step == 1:
-                                                    f.write('+%s*y[%s]**%s'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
+                                                    f.write('+%s*y[%s]**(%s)'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
                                                     step+=1
                                                 else:
-                                                    f.write('*%s*y[%s]**%s'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
+                                                    f.write('*%s*y[%s]**(%s)'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
                                         elif reactant2 != reactant:
                                             stoich=loss_dict[reactant2][equation]
                                             if stoich == 1:
-- 
2.43.0


From 374c141c82d86ee063afffea13f8d0c944c35804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:23 +0000
Subject: [PATCH 07/24] fix: scale each row of the generated Jacobian by the
 species' own coefficient

d(dy_i/dt)/dy_j left out how many of species i a reaction consumes or produces.
---
 Parse_eqn_file.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index d14c25a..fb2c0c1 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2856,6 +2856,8 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                                 f.write('*r(%s)'%(equation+1))
                             elif step == 1:
                                 f.write('-1.0*r(%s)'%(equation+1))
+                            if loss_dict[species][equation] != 1:
+                                f.write('*%s'%(loss_dict[species][equation]))
                             equation_flag+=1
                             
                 # Now repeat the above procedure but for reactions that lead to concentration gain    
@@ -2932,6 +2934,8 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                                 f.write('*r(%s)'%(equation+1))
                             elif step == 1:
                                 f.write('+1.0*r(%s)'%(equation+1))
+                            if gain_dict[species][equation] != 1:
+                                f.write('*%s'%(gain_dict[species][equation]))
                             equation_flag+=1
 
 
@@ -3120,6 +3124,8 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                                 f.write('*r[%s]'%(equation))
                             elif step == 1:
                                 f.write('-1.0*r[%s]'%(equation))
+                            if loss_dict[species][equation] != 1:
+                                f.write('*%s'%(loss_dict[species][equation]))
                             equation_flag+=1
                             
                 # Now repeat the above procedure but for reactions that lead to concentration gain    
@@ -3196,6 +3202,8 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                                 f.write('*r[%s]'%(equation))
                             elif step == 1:
                                 f.write('+1.0*r[%s]'%(equation))
+                            if gain_dict[species][equation] != 1:
+                                f.write('*%s'%(gain_dict[species][equation]))
                             equation_flag+=1
 
 
-- 
2.43.0


From f4e83d611a9828dda84d2cdab2371f617c453149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:17 +0000
Subject: [PATCH 08/24] fix: keep lines of the generated Fortran Jacobian
 within 132 characters

Four terms with coefficients and powers do not fit on one line, and the compiler rejects it.
---
 Parse_eqn_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index fb2c0c1..fb3a6c8 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2791,7 +2791,7 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                         reactants_list_loss_temp=list(set(reactants_list_loss_temp))
                         # Check if 'otherspecie' is in this reaction
                         if reactant in reactants_list_loss_temp:
-                            if equation_flag > 3: # this is just to ensure line length isnt a problem for Fortran compiler
+                            if equation_flag > 0: # this is just to ensure line length isnt a problem for Fortran compiler
                                 f.write(' & \n')
                                 f.write('    ')  
                                 equation_flag=0
@@ -2866,7 +2866,7 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                         reactants_list_gain_temp=[reactant for step, reactant in rate_dict_reactants[equation].items()]
                         reactants_list_gain_temp=list(set(reactants_list_gain_temp))
                         if reactant in reactants_list_gain_temp:
-                            if equation_flag > 3: # this is just to ensure line length isnt a problem for Fortran compiler
+                            if equation_flag > 0: # this is just to ensure line length isnt a problem for Fortran compiler
                                 f.write(' & \n')
                                 f.write('    ')  
                                 equation_flag=0
-- 
2.43.0


From d4e0a4d8324e70fd3a0ea65f08252b0e6b30e3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:15 +0000
Subject: [PATCH 09/24] fix: convert every mathematical function in a rate
 coefficient, not only the last one listed

Each replacement started again from the original text, so LOG, dlog, dsqrt and dabs were left
as they were and the generated Python raised NameError.
---
 rate_coeff_conversion.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rate_coeff_conversion.py b/rate_coeff_conversion.py
index beae9fe..8093b3a 100644
--- a/rate_coeff_conversion.py
+++ b/rate_coeff_conversion.py
@@ -80,8 +80,9 @@ def convert_rate_mcm(rate_dict):
     new_rate_full=[]
     for equation_step, rate_full in rate_dict.items():
         
+        temp_text=rate_full
         for operation in math_list:
-            temp_text=rate_full.replace(operation[0],operation[1])
+            temp_text=temp_text.replace(operation[0],operation[1])
         for syntax in map_list:
             temp_text=temp_text.replace(syntax[0],syntax[1])
 
@@ -161,8 +162,9 @@ def convert_rate_mcm_numba(rate_dict):
     new_rate_full=[]
     for equation_step, rate_full in rate_dict.items():
         
+        temp_text=rate_full
         for operation in math_list:
-            temp_text=rate_full.replace(operation[0],operation[1])
+            temp_text=temp_text.replace(operation[0],operation[1])
         for syntax in map_list:
             temp_text=temp_text.replace(syntax[0],syntax[1])
 
@@ -264,8 +266,9 @@ def convert_rate_mcm_fortran(rate_dict):
     new_rate_full=[]
     for equation_step, rate_full in rate_dict.items():
         
+        temp_text=rate_full
         for operation in math_list:
-            temp_text=rate_full.replace(operation[0],operation[1])
+            temp_text=temp_text.replace(operation[0],operation[1])
         for syntax in map_list:
             temp_text=temp_text.replace(syntax[0],syntax[1])
 
-- 
2.43.0


From 4ecc8b21c3ce9ea773e2e7d1414fdc96f01222c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:32 +0000
Subject: [PATCH 10/24] fix: convert Fortran literals whose exponent starts
 with 0, such as 1.0D0, for Python

---
 rate_coeff_conversion.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rate_coeff_conversion.py b/rate_coeff_conversion.py
index 8093b3a..5470e9c 100644
--- a/rate_coeff_conversion.py
+++ b/rate_coeff_conversion.py
@@ -147,6 +147,7 @@ def convert_rate_mcm_numba(rate_dict):
         ]
     map_list=[('D-','E-'),
         ('D+','E+'),
+        ('D0','E+0'),
         ('D1','E+1'),
         ('D2','E+2'),
         ('D3','E+3'),
-- 
2.43.0


From 75a72f1b345b35373bdb0ca983cb5ff643c85403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:17 +0000
Subject: [PATCH 11/24] fix: correct nine misspelt names in the RO2 list, which
 left those peroxy radicals out of the pool

---
 Parse_eqn_file.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index fb3a6c8..3138752 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -1791,7 +1791,7 @@ def write_RO2_indices(filename,species_dict2array):
     #The following is a list of species defined as contributing to total RO2 concetrations [old MCM]
     RO2_names = ['HOCH2CH2O2','HO1C3O2','HYPROPO2','IPROPOLO2','NBUTOLAO2','NBUTOLBO2','BUT2OLO2','IBUTOLBO2','IBUTOLCO2','TBUTOLO2','HO3C5O2', 
     'PE2ENEBO2','HM2C43O2','M2BUOL2O2','HM33C3O2','ME3BUOLO2','HO2M2C4O2','ME2BU2OLO2','PROL11MO2','H2M3C4O2','ME2BUOLO2','CYHEXOLAO2','MIBKAOHAO2',  
-    'MIBKAOHBO2','MIBKHO4O2','CH3CO3','NMBOAO2','NMBOBO2','MBOAO2','MBOBO2','CH3O2','HCOCH2O2','C2H5CO3','C2H5O2','C3H7CO3','BUTALO2','NC3H7O2','IPRCO3','IBUTALBO2,'
+    'MIBKAOHBO2','MIBKHO4O2','CH3CO3','NMBOAO2','NMBOBO2','MBOAO2','MBOBO2','CH3O2','HCOCH2O2','C2H5CO3','C2H5O2','C3H7CO3','BUTALO2','NC3H7O2','IPRCO3','IBUTALBO2',
     'IBUTALCO2','IC3H7O2','C4H9CO3','C4CHOBO2','NC4H9O2','ACO3','ACRO2','OCCOHCO2','CH3C2H2O2','MACO3','MACRO2','MACROHO2','C3DBCO3','C4CONO3O2','C4NO3COO2',
     'C4OCCOHCO2','COCCOH2CO2','SC4H9O2',  
     'IC4H9O2','TC4H9O2','PEAO2','PEBO2',  
@@ -1811,25 +1811,25 @@ def write_RO2_indices(filename,species_dict2array):
     'C4NO32M1O2','C4NO32M2O2','C4M3NO31O2',  
     'C4M3NO32O2','IPRCHOOA','ME3BU2OLO2',  
     'C4M2NO32O2','C4M2NO33O2','C65NO36O2',  
-    'C66NO35O2','C6OH5O2','HO5C6O2','C62NO33O2)', 
+    'C66NO35O2','C6OH5O2','HO5C6O2','C62NO33O2', 
     'C63NO32O2','C64OH5O2','C65OH4O2',  
     'C4ME2NO3O2','C4ME2OHO2','BZBIPERO2',  
     'C6H5CH2O2','TLBIPERO2','OXYLO2',  
     'OXYBIPERO2','MXYLO2','MXYBIPERO2','PXYLO2',  
     'PXYBIPERO2','C6H5C2H4O2','EBZBIPERO2',  
-    'PHC3O2','PBZBIPERO2','PHIC3O2','IPBZBIPRO2)',  
+    'PHC3O2','PBZBIPERO2','PHIC3O2','IPBZBIPRO2',  
     'TM123BO2','TM123BPRO2','TM124BO2',  
     'TM124BPRO2','TMBO2','TM135BPRO2','ETOLO2',  
     'OETLBIPRO2','METLBIPRO2','PETLBIPRO2',  
     'DM35EBO2','DMEBIPRO2','DE35TO2',  
     'DETLBIPRO2','NSTYRENO2','STYRENO2',  
     'C6H5CO3','C6H5O2','CH2CLO2','CHCL2O2',  
-    'CCL3O2','CCL3CH2O2','TCEOHO2','C2CL3OHAO2)',  
+    'CCL3O2','CCL3CH2O2','TCEOHO2','C2CL3OHAO2',  
     'C2CL3OHBO2','C2CL2OHO2','DICLETO2',  
     'CH2OHCL2O2','CL2OHCH2O2','CL12PRAO2',  
     'CL12PRBO2','CL12PRCO2','CH3CCL2O2',  
     'CHCL2CH2O2','CH2CLCH2O2','CH3CHCLO2',  
-    'CHCL2CL2O2','CH2CL3O2','CHCL3O2','CCLNO3O2)',  
+    'CHCL2CL2O2','CH2CL3O2','CHCL3O2','CCLNO3O2',  
     'CNO3CLO2','CCLOHCH2O2','CH2OHCCLO2',  
     'NBUTDAO2','NBUTDBO2','BUTDAO2','BUTDBO2',  
     'BUTDCO2','NISOPO2','ISOP34O2','CHOOCH2O2',  
@@ -1840,7 +1840,7 @@ def write_RO2_indices(filename,species_dict2array):
     'NBUACETCO2','SBUACETAO2','SBUACETBO2',  
     'MCOOTBO2','TBOCOCH2O2','CH3OCH2O2',  
     'DIETETO2','ETOC2O2','MTBEAO2','MTBEBO2',  
-    'DIIPRETO2','IPROMC2O2','ETBEAO2','ETBEBO2)',  
+    'DIIPRETO2','IPROMC2O2','ETBEAO2','ETBEBO2',  
     'ETBECO2','MO2EOLAO2','MO2EOLBO2',  
     'EOX2EOLAO2','EOX2EOLBO2','PR2OHMOXO2',  
     'H2C3OCO2','BOX2EOHAO2','BOX2EOHBO2',  
@@ -1857,13 +1857,13 @@ def write_RO2_indices(filename,species_dict2array):
     'LIMBO2','LIMCO2','NBCO2','BCAO2',  
     'BCBO2','BCCO2','DMMAO2','DMMBO2',  
     'DMCO2','CH3SCH2O2','HODMSO2','ETHOXO2',  
-    'BUT2CO3','C3ME3CO3','C3ME3CHOO2','HOCH2CO3)',  
+    'BUT2CO3','C3ME3CO3','C3ME3CHOO2','HOCH2CO3',  
     'CH3CHOHCO3','IPRHOCO3','IPRCHOO',  
     'BZEMUCCO3','BZEMUCO2','C5DIALO2','NPHENO2',  
     'PHENO2','CRESO2','NCRESO2','TLEMUCCO3',  
     'TLEMUCO2','C615CO2O2','OXYMUCCO3',  
     'OXYMUCO2','MC6CO2O2','NOXYOLO2','OXYOLO2',  
-    'MXYMUCCO3','MXYMUCO2','C726CO5O2','MXYOLO2)',  
+    'MXYMUCCO3','MXYMUCO2','C726CO5O2','MXYOLO2',  
     'NMXYOLO2','PXYMUCCO3','PXYMUCO2',  
     'C6M5CO2O2','NPXYOLO2','PXYOLO2','EBENZOLO2',  
     'NEBNZOLO2','EBZMUCCO3','EBZMUCO2',  
@@ -1876,7 +1876,7 @@ def write_RO2_indices(filename,species_dict2array):
     'TM124MUCO2','C7CO2M5O2','NTM135OLO2',  
     'TM135OLO2','TM135MUCO3','TM135MUCO2',  
     'C7M2CO5O2','OETLMUCCO3','OETLMUCO2',  
-    'MC7CO2O2','NOETOLO2','OETOLO2','METLMUCCO3)',  
+    'MC7CO2O2','NOETOLO2','OETOLO2','METLMUCCO3',  
     'METLMUCO2','C826CO3O2','METOLO2',  
     'NMETOLO2','PETLMUCCO3','PETLMUCO2',  
     'C7M6CO2O2','NPETOLO2','PETOLO2','DMEBMUCO3',  
-- 
2.43.0


From 5c47bc8af570d9bb63663c006210e072b90f3095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:17 +0000
Subject: [PATCH 12/24] fix: save an empty RO2 index list as integers so that
 it can be used as an index

---
 Parse_eqn_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 3138752..2d63696 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2129,7 +2129,7 @@ def write_RO2_indices(filename,species_dict2array):
         if name in species_dict2array:
             RO2_indices.append(species_dict2array[name])
             
-    np.save(filename+'_RO2_indices', RO2_indices)
+    np.save(filename+'_RO2_indices', np.array(RO2_indices,dtype=int))
     	
 def write_reactants_indices(filename,equations,num_species,species_dict2array,rate_dict_reactants,loss_dict):
 
-- 
2.43.0


From bc6d06d9482e8d88d4e420ebfbca65ef5b30ebe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:47 +0000
Subject: [PATCH 13/24] fix: let the time of day progress through the whole run
 instead of restarting with every batch step

---
 Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py | 4 ++--
 Aerosol/f2py/ODE_solver.py                        | 4 ++--
 ODE_solver.py                                     | 4 ++--
 f2py/ODE_solver.py                                | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
index ce71d93..a8ad1e0 100644
--- a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
+++ b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
@@ -227,7 +227,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, H2O, PInit, y_co
             
         else:
             #y0 = y_output[-1,:] # Take the output from the last batch as the start of this
-            exp_mod = Explicit_Problem(dydt_func,y_output[-1],t0, name = filename)
+            exp_mod = Explicit_Problem(dydt_func,y_output[-1],total_time, name = filename)
             
         # Define ODE parameters. 
         # Initial steps might be slower than mid-simulation. It varies.
@@ -249,7 +249,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, H2O, PInit, y_co
         exp_sim.report_continuously = True
         exp_sim.maxncf = 1000
         #Sets the parameters        
-        t_output, y_output = exp_sim.simulate(batch_step) #Simulate 'batch' seconds
+        t_output, y_output = exp_sim.simulate(total_time+batch_step) #Simulate 'batch' seconds, the solver needs the final time
         total_time+=batch_step
         t_array.append(total_time) # Save the output from the end step, of the current batch, to a matrix
         y_matrix[time_step,:]=y_output[-1,:]
diff --git a/Aerosol/f2py/ODE_solver.py b/Aerosol/f2py/ODE_solver.py
index 89a5372..3656249 100644
--- a/Aerosol/f2py/ODE_solver.py
+++ b/Aerosol/f2py/ODE_solver.py
@@ -267,7 +267,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
             
         else:
             y0 = y_output[-1,:] # Take the output from the last batch as the start of this
-            exp_mod = Explicit_Problem(dydt_func,y0,t0, name = filename)
+            exp_mod = Explicit_Problem(dydt_func,y0,total_time, name = filename)
             
         # Define ODE parameters. 
         # Initial steps might be slower than mid-simulation. It varies.
@@ -289,7 +289,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
         exp_sim.report_continuously = True
         exp_sim.maxncf = 1000
         #Sets the parameters        
-        t_output, y_output = exp_sim.simulate(batch_step) #Simulate 'batch' seconds
+        t_output, y_output = exp_sim.simulate(total_time+batch_step) #Simulate 'batch' seconds, the solver needs the final time
         total_time+=batch_step
         t_array.append(total_time) # Save the output from the end step, of the current batch, to a matrix
         y_matrix[time_step,:]=y_output[-1,:]
diff --git a/ODE_solver.py b/ODE_solver.py
index a338b9e..f0ff21a 100644
--- a/ODE_solver.py
+++ b/ODE_solver.py
@@ -246,7 +246,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
 
         else:
             y0 = y_output[-1,:] # Take the output from the last batch as the start of this
-            exp_mod = Explicit_Problem(dydt_func,y0,t0, name = filename)
+            exp_mod = Explicit_Problem(dydt_func,y0,total_time, name = filename)
 
         # Define ODE parameters.
         # Initial steps might be slower than mid-simulation. It varies.
@@ -268,7 +268,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
         exp_sim.report_continuously = True
         exp_sim.maxncf = 1000
         #Sets the parameters
-        t_output, y_output = exp_sim.simulate(batch_step) #Simulate 'batch' seconds
+        t_output, y_output = exp_sim.simulate(total_time+batch_step) #Simulate 'batch' seconds, the solver needs the final time
         total_time+=batch_step
         t_array.append(total_time) # Save the output from the end step, of the current batch, to a matrix
         y_matrix[time_step,:]=y_output[-1,:]
diff --git a/f2py/ODE_solver.py b/f2py/ODE_solver.py
index 58679f6..bb2e869 100644
--- a/f2py/ODE_solver.py
+++ b/f2py/ODE_solver.py
@@ -190,7 +190,7 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
             
         else:
             y0 = y_output[-1,:] # Take the output from the last batch as the start of this
-            exp_mod = Explicit_Problem(dydt_func,y0,t0, name = filename)
+            exp_mod = Explicit_Problem(dydt_func,y0,total_time, name = filename)
             
         # Define ODE parameters. 
         # Initial steps might be slower than mid-simulation. It varies.
@@ -213,7 +213,7 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
         exp_sim.report_continuously = True
         exp_sim.maxncf = 1000
         #Sets the parameters        
-        t_output, y_output = exp_sim.simulate(batch_step) #Simulate 'batch' seconds
+        t_output, y_output = exp_sim.simulate(total_time+batch_step) #Simulate 'batch' seconds, the solver needs the final time
         total_time+=batch_step
         t_array.append(total_time) # Save the output from the end step, of the current batch, to a matrix
         y_matrix[time_step,:]=y_output[-1,:]
-- 
2.43.0


From 046a64c25e11da38d930db623e567800edbb2e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:47 +0000
Subject: [PATCH 14/24] fix: complete runs whose length is not a whole number
 of batch steps

---
 Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py | 9 +++++----
 Aerosol/f2py/ODE_solver.py                        | 9 +++++----
 ODE_solver.py                                     | 9 +++++----
 f2py/ODE_solver.py                                | 9 +++++----
 4 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
index a8ad1e0..e6704e2 100644
--- a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
+++ b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
@@ -206,7 +206,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, H2O, PInit, y_co
     # the batch step change for increased speed
     t_array=[]
     time_step=0
-    number_steps=int(simulation_time/batch_step) # Just cycling through 3 steps to get to a solution
+    number_steps=int(numpy.ceil(round(simulation_time/batch_step,6))) # The last step is shorter if batch_step does not divide simulation_time
     
     # Define a matrix that stores values as outputs from the end of each batch step. Again, you can remove
     # the need to run in batches. You can tell the Assimulo solvers the frequency of outputs.
@@ -218,7 +218,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, H2O, PInit, y_co
     print("Starting simulation")
 
     # In the following, we can 
-    while total_time < simulation_time:
+    while time_step < number_steps:
         
         if total_time == 0.0:
             #Define an Assimulo problem
@@ -249,8 +249,9 @@ def run_simulation(filename, save_output, start_time, temp, RH, H2O, PInit, y_co
         exp_sim.report_continuously = True
         exp_sim.maxncf = 1000
         #Sets the parameters        
-        t_output, y_output = exp_sim.simulate(total_time+batch_step) #Simulate 'batch' seconds, the solver needs the final time
-        total_time+=batch_step
+        end_time=min(total_time+batch_step,simulation_time)
+        t_output, y_output = exp_sim.simulate(end_time) #Simulate 'batch' seconds, the solver needs the final time
+        total_time=end_time
         t_array.append(total_time) # Save the output from the end step, of the current batch, to a matrix
         y_matrix[time_step,:]=y_output[-1,:]
         SOA_matrix[time_step,0]=dydt_func.total_SOA_mass
diff --git a/Aerosol/f2py/ODE_solver.py b/Aerosol/f2py/ODE_solver.py
index 3656249..3e149d1 100644
--- a/Aerosol/f2py/ODE_solver.py
+++ b/Aerosol/f2py/ODE_solver.py
@@ -246,7 +246,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
     # batch_step=300.0
     t_array=[]
     time_step=0
-    number_steps=int(simulation_time/batch_step) # Just cycling through 3 steps to get to a solution
+    number_steps=int(numpy.ceil(round(simulation_time/batch_step,6))) # The last step is shorter if batch_step does not divide simulation_time
     
     # Define a matrix that stores values as outputs from the end of each batch step. Again, you can remove
     # the need to run in batches. You can tell the Assimulo solvers the frequency of outputs.
@@ -258,7 +258,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
     print("Starting simulation")
 
     # In the following, we can 
-    while total_time < simulation_time:
+    while time_step < number_steps:
         
         if total_time == 0.0:
             #Define an Assimulo problem
@@ -289,8 +289,9 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
         exp_sim.report_continuously = True
         exp_sim.maxncf = 1000
         #Sets the parameters        
-        t_output, y_output = exp_sim.simulate(total_time+batch_step) #Simulate 'batch' seconds, the solver needs the final time
-        total_time+=batch_step
+        end_time=min(total_time+batch_step,simulation_time)
+        t_output, y_output = exp_sim.simulate(end_time) #Simulate 'batch' seconds, the solver needs the final time
+        total_time=end_time
         t_array.append(total_time) # Save the output from the end step, of the current batch, to a matrix
         y_matrix[time_step,:]=y_output[-1,:]
         SOA_matrix[time_step,0]=dydt_func.total_SOA_mass
diff --git a/ODE_solver.py b/ODE_solver.py
index f0ff21a..ccb9b9f 100644
--- a/ODE_solver.py
+++ b/ODE_solver.py
@@ -226,7 +226,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
     # batch_step=100.0 # seconds
     t_array=[]
     time_step=0
-    number_steps=int(simulation_time/batch_step) # Just cycling through 3 steps to get to a solution
+    number_steps=int(numpy.ceil(round(simulation_time/batch_step,6))) # The last step is shorter if batch_step does not divide simulation_time
 
     # Define a matrix that stores values as outputs from the end of each batch step. Again, you can remove
     # the need to run in batches. You can tell the Assimulo solvers the frequency of outputs.
@@ -236,7 +236,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
 
     #pdb.set_trace()
 
-    while total_time < simulation_time:
+    while time_step < number_steps:
 
         if total_time == 0.0:
             #Define an Assimulo problem
@@ -268,8 +268,9 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
         exp_sim.report_continuously = True
         exp_sim.maxncf = 1000
         #Sets the parameters
-        t_output, y_output = exp_sim.simulate(total_time+batch_step) #Simulate 'batch' seconds, the solver needs the final time
-        total_time+=batch_step
+        end_time=min(total_time+batch_step,simulation_time)
+        t_output, y_output = exp_sim.simulate(end_time) #Simulate 'batch' seconds, the solver needs the final time
+        total_time=end_time
         t_array.append(total_time) # Save the output from the end step, of the current batch, to a matrix
         y_matrix[time_step,:]=y_output[-1,:]
 
diff --git a/f2py/ODE_solver.py b/f2py/ODE_solver.py
index bb2e869..7f3946a 100644
--- a/f2py/ODE_solver.py
+++ b/f2py/ODE_solver.py
@@ -172,7 +172,7 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
     #batch_step=100.0
     t_array=[]
     time_step=0
-    number_steps=int(simulation_time/batch_step) # Just cycling through 3 steps to get to a solution
+    number_steps=int(numpy.ceil(round(simulation_time/batch_step,6))) # The last step is shorter if batch_step does not divide simulation_time
     
     # Define a matrix that stores values as outputs from the end of each batch step. Again, you can remove
     # the need to run in batches. You can tell the Assimulo solvers the frequency of outputs.
@@ -181,7 +181,7 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
     print("Starting simulation")
 
     # In the following, we can 
-    while total_time < simulation_time:
+    while time_step < number_steps:
         
         if total_time == 0.0:
             #Define an Assimulo problem
@@ -213,8 +213,9 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
         exp_sim.report_continuously = True
         exp_sim.maxncf = 1000
         #Sets the parameters        
-        t_output, y_output = exp_sim.simulate(total_time+batch_step) #Simulate 'batch' seconds, the solver needs the final time
-        total_time+=batch_step
+        end_time=min(total_time+batch_step,simulation_time)
+        t_output, y_output = exp_sim.simulate(end_time) #Simulate 'batch' seconds, the solver needs the final time
+        total_time=end_time
         t_array.append(total_time) # Save the output from the end step, of the current batch, to a matrix
         y_matrix[time_step,:]=y_output[-1,:]
                 
-- 
2.43.0


From 54b627896444ab2357806de466e71eb0594eb2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:47 +0000
Subject: [PATCH 15/24] fix: compare the species name with H2O by value in the
 aerosol solver

---
 Aerosol/f2py/ODE_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Aerosol/f2py/ODE_solver.py b/Aerosol/f2py/ODE_solver.py
index 3e149d1..d747f89 100644
--- a/Aerosol/f2py/ODE_solver.py
+++ b/Aerosol/f2py/ODE_solver.py
@@ -213,9 +213,9 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
     # Define species concentrations in ppb fr the gas phase
     # You have already set this in the front end script, and now we populate the y array with those concentrations
     for specie in species_initial_conc.keys():
-        if specie is not 'H2O':
+        if specie != 'H2O':
             y0[species_dict2array[specie]]=species_initial_conc[specie]*Cfactor #convert from pbb to molcules/cc
-        elif specie is 'H2O':
+        elif specie == 'H2O':
             y0[species_dict2array[specie]]=species_initial_conc[specie]
 
     # Now add the initial condensed phase [including water]
-- 
2.43.0


From e76e0ed260943b22e3c49e03a8524d67bf807f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 16/24] fix: give a species without a SMILES entry no molecule
 instead of the previous species' one

---
 Parse_eqn_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 2d63696..f6dae1c 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -347,6 +347,7 @@ def extract_smiles_species(output_dict, SMILES_filename):
                     species_SMILES=re.search(r'<smiles>(.*?)</smiles>',node.getElementsByTagName('smiles').item(0).toxml()).group(1)
                 except:
                     print('No SMILES entry for species ',species_name)
+                    continue
                 SMILES_dict[species_name]=species_SMILES
                 Pybel_object=pybel.readstring('smi',species_SMILES)
                 Pybel_object_dict[species_SMILES]=Pybel_object
-- 
2.43.0


From 5d5d3bfe51d9f27951cff6763d5a288e6c4291b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:38 +0000
Subject: [PATCH 17/24] fix: declare and sum the SOA mass per bin in the full
 partitioning code, which did not compile

---
 Parse_eqn_file.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index f6dae1c..82f5492 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -3302,6 +3302,7 @@ def write_partitioning_section_fortran(total_length_y,num_bins,num_species):
     f.write('                              Correction, Kn, dm_dt,& \n')
     f.write('                              k_i_m_t_part1, k_i_m_t \n') 
     f.write('    REAL(8), dimension(%s,%s) :: dy_dt_gas_matrix \n'%(num_species,num_bins))
+    f.write('    REAL(8), dimension(%s) :: total_SOA_mass_array \n'%(num_bins))
     f.write('    REAL(8) total_moles, density, diameter, radius, water_moles  \n')
     f.write('    REAL(8), dimension(%s) :: Pressure_eq, Cstar_i_m_t \n'%(num_species)) 
     f.write('    REAL(8), dimension(%s) :: kelvin_factor,y_mole_fractions  \n'%(num_species))
@@ -3336,11 +3337,11 @@ def write_partitioning_section_fortran(total_length_y,num_bins,num_species):
     f.write('!$OMP& PRIVATE(Correction_part3,Correction,kelvin_factor), & \n') 
     f.write('!$OMP& PRIVATE(Pressure_eq,Cstar_i_m_t,k_i_m_t_part1), & \n') 
     f.write('!$OMP& PRIVATE(k_i_m_t,dm_dt), & \n') 
-    f.write('!$OMP& SHARED(total_SOA_mass,total_water_cond_mass,size_array), & \n') 
+    f.write('!$OMP& SHARED(total_water_cond_mass,size_array), & \n') 
     f.write('!$OMP& SHARED(ycore,core_diss,mw_array,density_input), & \n') 
     f.write('!$OMP& SHARED(C_g_i_t,dy_dt,core_mass_array,R_gas,Psat), & \n') 
     f.write('!$OMP& SHARED(gamma_gas,NA,alpha_d_org,Model_temp,DStar_org), & \n') 
-    f.write('!$OMP& SHARED(dy_dt_gas_matrix,aw_array) \n') 
+    f.write('!$OMP& SHARED(dy_dt_gas_matrix,aw_array,total_SOA_mass_array) \n') 
     f.write('    DO size_step=1,%s \n'%(num_bins)) 
     f.write('\n')     	
     f.write('        ! 1) Select a slice of y that represents this size bin \n') 
@@ -3355,7 +3356,7 @@ def write_partitioning_section_fortran(total_length_y,num_bins,num_species):
     f.write('        density_array(1:num_species)=density_input(1:num_species)\n') 
     f.write('        density_array(num_species+1)=core_density_array(size_step)\n') 
     f.write('\n')     	
-    f.write('        total_SOA_mass=total_SOA_mass+SUM(mass_array(1:num_species-1))\n') 
+    f.write('        total_SOA_mass_array(size_step)=SUM(mass_array(1:num_species-1))\n') 
     f.write('        total_water_cond_mass=total_water_cond_mass+mass_array(num_species)\n') 
     f.write('        aw_array(size_step)=temp_array(num_species)/total_moles  \n')     	
     f.write('        total_mass=SUM(mass_array(:))\n') 
@@ -3425,6 +3426,7 @@ def write_partitioning_section_fortran(total_length_y,num_bins,num_species):
     f.write('    ENDDO \n') 
     f.write('!$OMP END PARALLEL DO \n') 
     f.write('   dy_dt(1:num_species)=dy_dt(1:num_species)-SUM(dy_dt_gas_matrix, DIM=2)  \n')
+    f.write('   total_SOA_mass=SUM(total_SOA_mass_array)*(1.0D12)  \n')
     f.write('\n')    		    
     f.write('end subroutine \n') 
     f.close()  
-- 
2.43.0


From 8b1a3afc8c9233a7b74b666dd51539f1e26e53c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:46 +0000
Subject: [PATCH 18/24] fix: re-create Pybel objects when stored aerosol files
 are reused

Pybel objects wrap a pointer and cannot be pickled, so the aerosol scripts
stopped before the simulation.
---
 Aerosol/f2py/Aerosol_simulation_f2py.py             | 6 ++----
 Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py | 9 ++++-----
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/Aerosol/f2py/Aerosol_simulation_f2py.py b/Aerosol/f2py/Aerosol_simulation_f2py.py
index a39b786..40d7242 100644
--- a/Aerosol/f2py/Aerosol_simulation_f2py.py
+++ b/Aerosol/f2py/Aerosol_simulation_f2py.py
@@ -200,8 +200,6 @@ if __name__=='__main__':
             pickle.dump(species_dict2array, handle, protocol=pickle.HIGHEST_PROTOCOL)
         with open(filename+'_species_dict.pickle', 'wb') as handle:
             pickle.dump(species_dict, handle, protocol=pickle.HIGHEST_PROTOCOL)
-        with open(filename+'_Pybel_object_dict.pickle', 'wb') as handle:
-            pickle.dump(Pybel_object_dict, handle, protocol=pickle.HIGHEST_PROTOCOL)
         with open(filename+'_SMILES_dict.pickle', 'wb') as handle:
             pickle.dump(SMILES_dict, handle, protocol=pickle.HIGHEST_PROTOCOL)
         #with open(filename+'_property_dict1.pickle', 'wb') as handle:
@@ -263,10 +261,10 @@ if __name__=='__main__':
             species_dict = pickle.load(f) 
         with open(filename+'_equations.pickle', 'rb') as f:
             equations = pickle.load(f) 
-        with open(filename+'_Pybel_object_dict.pickle', 'rb') as f:
-            Pybel_object_dict= pickle.load(f) 
         with open(filename+'_SMILES_dict.pickle', 'rb') as f:
             SMILES_dict= pickle.load(f) 
+        # Pybel objects cannot be pickled, so re-create them from the SMILES strings
+        Pybel_object_dict=dict((smiles,pybel.readstring('smi',smiles)) for smiles in SMILES_dict.values())
         #with open(filename+'_property_dict1.pickle', 'rb') as f:
         #    property_dict1= pickle.load(f) 
         #with open(filename+'_property_dict2.pickle', 'rb') as f:
diff --git a/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py b/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
index f682fa5..bd32a08 100644
--- a/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
+++ b/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
@@ -182,8 +182,6 @@ if __name__=='__main__':
             pickle.dump(species_dict2array, handle, protocol=pickle.HIGHEST_PROTOCOL)
         with open(filename+'_species_dict.pickle', 'wb') as handle:
             pickle.dump(species_dict, handle, protocol=pickle.HIGHEST_PROTOCOL)
-        with open(filename+'_Pybel_object_dict.pickle', 'wb') as handle:
-            pickle.dump(Pybel_object_dict, handle, protocol=pickle.HIGHEST_PROTOCOL)
         with open(filename+'_SMILES_dict.pickle', 'wb') as handle:
             pickle.dump(SMILES_dict, handle, protocol=pickle.HIGHEST_PROTOCOL)
         #with open(filename+'_property_dict1.pickle', 'wb') as handle:
@@ -193,7 +191,7 @@ if __name__=='__main__':
         with open(filename+'_num_species_gas.pickle', 'wb') as handle:
             pickle.dump(num_species, handle, protocol=pickle.HIGHEST_PROTOCOL)
         with open(filename+'concentration_dict.pickle', 'wb') as handle:
-            pickle.dump(concentration_dict, handle, protocol=pickle.HIGHEST_PROTOCOL)
+            pickle.dump(dict((smiles,concentration_dict[Pybel_object]) for smiles, Pybel_object in Pybel_object_dict.items()), handle, protocol=pickle.HIGHEST_PROTOCOL)
         
         # Generate some static Fortran libraries for use in ODE solver
         # Here you have the option to use OpenMP for spreading caclualtions across available cores
@@ -212,10 +210,10 @@ if __name__=='__main__':
             species_dict = pickle.load(f) 
         with open(filename+'_equations.pickle', 'rb') as f:
             equations = pickle.load(f) 
-        with open(filename+'_Pybel_object_dict.pickle', 'rb') as f:
-            Pybel_object_dict= pickle.load(f) 
         with open(filename+'_SMILES_dict.pickle', 'rb') as f:
             SMILES_dict= pickle.load(f) 
+        # Pybel objects cannot be pickled, so re-create them from the SMILES strings
+        Pybel_object_dict=dict((smiles,pybel.readstring('smi',smiles)) for smiles in SMILES_dict.values())
         #with open(filename+'_property_dict1.pickle', 'rb') as f:
         #    property_dict1= pickle.load(f) 
         #with open(filename+'_property_dict2.pickle', 'rb') as f:
@@ -224,6 +222,7 @@ if __name__=='__main__':
             num_species= pickle.load(f) 
         with open(filename+'concentration_dict.pickle', 'rb') as f:
             concentration_dict= pickle.load(f) 
+        concentration_dict=dict((Pybel_object_dict[smiles],value) for smiles, value in concentration_dict.items()) # saved by SMILES string
             
         print("Calculating properties that dictate gas-to-particle partitioning")
         property_dict1=Property_calculation.Pure_component1(num_species,species_dict,
-- 
2.43.0


From bcd4d1b1b6bc2d521d3f1ec259ea94e37e116bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:46 +0000
Subject: [PATCH 19/24] fix: reusing stored aerosol files needed an equations
 pickle that was never saved

---
 Aerosol/f2py/Aerosol_simulation_f2py.py             | 2 ++
 Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py | 2 --
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Aerosol/f2py/Aerosol_simulation_f2py.py b/Aerosol/f2py/Aerosol_simulation_f2py.py
index 40d7242..d11381f 100644
--- a/Aerosol/f2py/Aerosol_simulation_f2py.py
+++ b/Aerosol/f2py/Aerosol_simulation_f2py.py
@@ -206,6 +206,8 @@ if __name__=='__main__':
         #    pickle.dump(property_dict1, handle, protocol=pickle.HIGHEST_PROTOCOL)
         #with open(filename+'_property_dict2.pickle', 'wb') as handle:
         #    pickle.dump(property_dict2, handle, protocol=pickle.HIGHEST_PROTOCOL)
+        with open(filename+'_equations.pickle', 'wb') as handle:
+            pickle.dump(equations, handle, protocol=pickle.HIGHEST_PROTOCOL)
         with open(filename+'_num_species_gas.pickle', 'wb') as handle:
             pickle.dump(num_species, handle, protocol=pickle.HIGHEST_PROTOCOL)
         
diff --git a/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py b/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
index bd32a08..ca70e58 100644
--- a/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
+++ b/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
@@ -208,8 +208,6 @@ if __name__=='__main__':
             species_dict2array = pickle.load(f) 
         with open(filename+'_species_dict.pickle', 'rb') as f:
             species_dict = pickle.load(f) 
-        with open(filename+'_equations.pickle', 'rb') as f:
-            equations = pickle.load(f) 
         with open(filename+'_SMILES_dict.pickle', 'rb') as f:
             SMILES_dict= pickle.load(f) 
         # Pybel objects cannot be pickled, so re-create them from the SMILES strings
-- 
2.43.0


From f986016ae118ca0756a2c3b6118c74d2bc60cbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:08 +0000
Subject: [PATCH 20/24] fix: species without a molecule stayed in the
 partitioning arrays when ignore_vp is False

---
 Aerosol/f2py/Aerosol_simulation_f2py.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/Aerosol/f2py/Aerosol_simulation_f2py.py b/Aerosol/f2py/Aerosol_simulation_f2py.py
index d11381f..ba704be 100644
--- a/Aerosol/f2py/Aerosol_simulation_f2py.py
+++ b/Aerosol/f2py/Aerosol_simulation_f2py.py
@@ -292,13 +292,13 @@ if __name__=='__main__':
     ignore_index_fortran=property_dict1['ignore_index_fortran'] 
     include_index=sorted(property_dict1['include_index']) # This is an array that captures compounds to be included in the partitioning calculations
     #pdb.set_trace()
-    if ignore_vp is True: # Remove those comounds for which there is no vapour pressure data OR are too volatile 
-        y_density_array=numpy.array(y_density_array)[include_index].tolist()
-        y_mw=numpy.array(y_mw)[include_index].tolist()
-        sat_vp=numpy.array(sat_vp)[include_index].tolist()
-        Delta_H=numpy.array(Delta_H)[include_index].tolist()
-        Latent_heat_gas=numpy.array(Latent_heat_gas)[include_index].tolist()
-        
+    # Remove those comounds for which there is no vapour pressure data OR, if ignore_vp is True, are too volatile 
+    y_density_array=numpy.array(y_density_array)[include_index].tolist()
+    y_mw=numpy.array(y_mw)[include_index].tolist()
+    sat_vp=numpy.array(sat_vp)[include_index].tolist()
+    Delta_H=numpy.array(Delta_H)[include_index].tolist()
+    Latent_heat_gas=numpy.array(Latent_heat_gas)[include_index].tolist()
+    
     
     sat_vap_water = numpy.exp((-0.58002206E4 / temp) + 0.13914993E1 - (0.48640239E-1 * temp) + (0.41764768E-4 * (temp**2.0E0))- (0.14452093E-7 * (temp**3.0E0)) + (0.65459673E1 * numpy.log(temp)))
     y_density_array.append(1000.0E0) #Append density of water to array [kg/m3]
-- 
2.43.0


From 2433f5fceab3be82b99bb47019464dc38d5bb1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:48 +0000
Subject: [PATCH 21/24] fix: chart of organic mass per bin failed when some
 species do not condense

---
 Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
index e6704e2..5e1bf3d 100644
--- a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
+++ b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
@@ -297,7 +297,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, H2O, PInit, y_co
     #In a future release I will add this as a seperate module
     if with_plots:
         try:
-            Plotting.stacked_bar(t_array,y_matrix,num_species_condensed,num_bins,numpy.array(y_mw[include_index]),NA)
+            Plotting.stacked_bar(t_array,y_matrix[:,num_species-num_species_condensed:],num_species_condensed,num_bins,numpy.array(y_mw),NA) # The chart expects as many gas entries as there are condensing species
         except:
             print("There is a problem using Matplotlib in your environment. If using this within a docker container, you will need to transfer the data to the host or configure your container to enable graphical displays. More information can be found at http://wiki.ros.org/docker/Tutorials/GUI ")
         
\ No newline at end of file
-- 
2.43.0


From 831541966e405f28d7910be4f1a3282d40c42f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:47 +0000
Subject: [PATCH 22/24] fix: give each thread its own bin indices in the
 generated partitioning code

---
 Parse_eqn_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 82f5492..14d0a57 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -3336,7 +3336,7 @@ def write_partitioning_section_fortran(total_length_y,num_bins,num_species):
     f.write('!$OMP& PRIVATE(Kn,Inverse_Kn,Correction_part1, Correction_part2), & \n') 
     f.write('!$OMP& PRIVATE(Correction_part3,Correction,kelvin_factor), & \n') 
     f.write('!$OMP& PRIVATE(Pressure_eq,Cstar_i_m_t,k_i_m_t_part1), & \n') 
-    f.write('!$OMP& PRIVATE(k_i_m_t,dm_dt), & \n') 
+    f.write('!$OMP& PRIVATE(k_i_m_t,dm_dt,index1,index2), & \n') 
     f.write('!$OMP& SHARED(total_water_cond_mass,size_array), & \n') 
     f.write('!$OMP& SHARED(ycore,core_diss,mw_array,density_input), & \n') 
     f.write('!$OMP& SHARED(C_g_i_t,dy_dt,core_mass_array,R_gas,Psat), & \n') 
@@ -3554,7 +3554,7 @@ def write_partitioning_section_fortran_ignore(total_length_y,num_bins,num_specie
     f.write('!$OMP& PRIVATE(Kn,Inverse_Kn,Correction_part1, Correction_part2), & \n') 
     f.write('!$OMP& PRIVATE(Correction_part3,Correction,kelvin_factor), & \n') 
     f.write('!$OMP& PRIVATE(Pressure_eq,Cstar_i_m_t,k_i_m_t_part1), & \n') 
-    f.write('!$OMP& PRIVATE(k_i_m_t,dm_dt), & \n') 
+    f.write('!$OMP& PRIVATE(k_i_m_t,dm_dt,index1,index2), & \n') 
     f.write('!$OMP& SHARED(total_water_cond_mass,size_array), & \n') 
     f.write('!$OMP& SHARED(ycore,core_diss,mw_array,density_input), & \n') 
     f.write('!$OMP& SHARED(C_g_i_t,dy_dt,core_mass_array,R_gas,Psat), & \n') 
-- 
2.43.0


From 8678562fcd2bc89dffe98d2573349617e409bae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:31 +0000
Subject: [PATCH 23/24] fix: break long rate expressions over several lines of
 the generated Fortran

---
 Parse_eqn_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 14d0a57..4c22cde 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -1766,7 +1766,8 @@ def write_rate_file_fortran(filename,rate_dict_fortran,openMP):
             f.write('!$OMP END SINGLE NOWAIT \n') 
             f.write('!$OMP SINGLE \n') 
         #pdb.set_trace()
-        f.write('    rate_values(%s) =%s \n' %(key+1,rate_dict_fortran[key])) 
+        rate_lines=re.findall('.{1,100}',rate_dict_fortran[key]) # Lines of Fortran hold 132 characters at most
+        f.write('    rate_values(%s) =%s \n' %(key+1,'& \n    &'.join(rate_lines))) 
         check_step+=1
     if openMP is True:
         f.write('!$OMP END SINGLE NOWAIT \n') 
-- 
2.43.0


From f22194091dcf4b6d70333189b6a8ca1960ef16bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:09 +0000
Subject: [PATCH 24/24] fix: keep lines of the generated Fortran tendencies
 within 132 characters

Five terms whose coefficients have many digits do not fit on one line, and the compiler rejects it.
---
 Parse_eqn_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 4c22cde..a7bad4b 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2600,7 +2600,7 @@ def write_loss_gain_fortran(filename,equations,num_species,loss_dict,gain_dict,s
                 if species in loss_dict.keys():
                     loss_step=0
                     for equation_step, stoich in loss_dict[species].items():
-                        if flag > 4:
+                        if flag > 2:
                             f.write(' & \n')
                             f.write('    ')
                             flag=0
@@ -2623,7 +2623,7 @@ def write_loss_gain_fortran(filename,equations,num_species,loss_dict,gain_dict,s
                     gain_step=0
                             
                     for equation_step, stoich in gain_dict[species].items():
-                        if flag > 4:
+                        if flag > 2:
                             f.write(' & \n')
                             f.write('    ')
                             flag=0
-- 
2.43.0

